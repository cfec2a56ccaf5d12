package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

// Models that record when the library synchronizes them.
var (
	hookLog  []string
	hookFail string // "op name" that fails
	hookPut  string // name of the model whose SyncToXMP fills the others
	errHook  = errors.New("hook error")
)

func hook(op, name string, d *xmp.Document) error {
	s := op + " " + name
	// what the other models hold when the call is made
	var l []string
	for _, n := range d.Nodes() {
		if x, ok := n.Model.(interface{ hookVal() *string }); ok {
			l = append(l, *x.hookVal())
			if op == "to" && hookPut == name && *x.hookVal() == "" {
				*x.hookVal() = "put by " + name
			}
		}
	}
	sort.Strings(l)
	hookLog = append(hookLog, s+" sees "+strings.Join(l, ","))
	if s == hookFail {
		return errHook
	}
	return nil
}

var hookNS = map[string]*xmp.Namespace{"ha": nsHa, "hb": nsHb, "hc": nsHc}

func newHook(name string) xmp.Model {
	switch name {
	case "ha":
		return &hookHa{}
	case "hb":
		return &hookHb{}
	case "hc":
		return &hookHc{}
	}
	return nil
}

var nsHa = xmp.NewNamespace("ha", "http://example.com/hook/ha/", newHook)

type hookHa struct {
	Val  string `xmp:"ha:val"`
	Keep string `xmp:"ha:keep"`
}

func (x hookHa) Can(n string) bool                  { return n == "ha" }
func (x hookHa) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsHa} }
func (x *hookHa) SyncModel(d *xmp.Document) error   { return hook("model", "ha", d) }
func (x *hookHa) SyncFromXMP(d *xmp.Document) error { return hook("from", "ha", d) }
func (x *hookHa) SyncToXMP(d *xmp.Document) error   { return hook("to", "ha", d) }
func (x *hookHa) CanTag(tag string) bool            { return false }
func (x *hookHa) GetTag(tag string) (string, error) { return "", nil }
func (x *hookHa) SetTag(tag, value string) error    { return nil }
func (x *hookHa) hookVal() *string                  { return &x.Val }

var nsHb = xmp.NewNamespace("hb", "http://example.com/hook/hb/", newHook)

type hookHb struct {
	Val  string `xmp:"hb:val"`
	Keep string `xmp:"hb:keep"`
}

func (x hookHb) Can(n string) bool                  { return n == "hb" }
func (x hookHb) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsHb} }
func (x *hookHb) SyncModel(d *xmp.Document) error   { return hook("model", "hb", d) }
func (x *hookHb) SyncFromXMP(d *xmp.Document) error { return hook("from", "hb", d) }
func (x *hookHb) SyncToXMP(d *xmp.Document) error   { return hook("to", "hb", d) }
func (x *hookHb) CanTag(tag string) bool            { return false }
func (x *hookHb) GetTag(tag string) (string, error) { return "", nil }
func (x *hookHb) SetTag(tag, value string) error    { return nil }
func (x *hookHb) hookVal() *string                  { return &x.Val }

var nsHc = xmp.NewNamespace("hc", "http://example.com/hook/hc/", newHook)

type hookHc struct {
	Val  string `xmp:"hc:val"`
	Keep string `xmp:"hc:keep"`
}

func (x hookHc) Can(n string) bool                  { return n == "hc" }
func (x hookHc) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsHc} }
func (x *hookHc) SyncModel(d *xmp.Document) error   { return hook("model", "hc", d) }
func (x *hookHc) SyncFromXMP(d *xmp.Document) error { return hook("from", "hc", d) }
func (x *hookHc) SyncToXMP(d *xmp.Document) error   { return hook("to", "hc", d) }
func (x *hookHc) CanTag(tag string) bool            { return false }
func (x *hookHc) GetTag(tag string) (string, error) { return "", nil }
func (x *hookHc) SetTag(tag, value string) error    { return nil }
func (x *hookHc) hookVal() *string                  { return &x.Val }

func hookDoc(order []string, withVal bool) (*xmp.Document, error) {
	d := xmp.NewDocument()
	for _, n := range order {
		x := newHook(n)
		if withVal {
			*x.(interface{ hookVal() *string }).hookVal() = "v" + n
		}
		switch y := x.(type) {
		case *hookHa:
			y.Keep = "k"
		case *hookHb:
			y.Keep = "k"
		case *hookHc:
			y.Keep = "k"
		}
		if _, err := d.AddModel(x); err != nil {
			return nil, err
		}
	}
	return d, nil
}

// hookCalls says whether the log has one call of op for every model and all
// saw the same complete document.
func hookCalls(op string, order []string, sees string) string {
	want := map[string]int{}
	for _, n := range order {
		want[op+" "+n+" sees "+sees] = 1
	}
	got := map[string]int{}
	for _, s := range hookLog {
		got[s]++
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Sprintf("calls are %s, expected one of %s for %v each", strings.Join(hookLog, "; "), op, order)
	}
	return ""
}

func hookVals(order []string) string {
	var l []string
	for _, n := range order {
		l = append(l, "v"+n)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func c22hooks(c *core.Ctx) {
	for _, n := range sortedKeys(hookNS) {
		xmp.Register(hookNS[n])
	}
	c.Group("hooks")
	var orders [][]string
	names := []string{"ha", "hb", "hc"}
	for m := 1; m < 8; m++ {
		var l []string
		for i, n := range names {
			if m>>i&1 == 1 {
				l = append(l, n)
			}
		}
		orders = append(orders, perms(l)...)
	}
	type op struct {
		name, kind string
		f          func(d *xmp.Document) ([]byte, error)
	}
	ops := []op{{"SyncModels", "model", func(d *xmp.Document) ([]byte, error) { return nil, d.SyncModels() }}}
	for _, w := range writes22 {
		if w.Name != "SyncToXMP" {
			ops = append(ops, op{w.Name, "to", w.Do})
		}
	}
	for _, order := range orders {
		for _, o := range ops {
			order, o := order, o
			c.Case("hooks|"+o.name+"|"+strings.Join(order, ","), nil, func() string {
				c.Nontrivial(o.name + strings.Join(order, ","))
				hookFail, hookPut = "", ""
				d, err := hookDoc(order, true)
				if err != nil {
					return err.Error()
				}
				hookLog = nil
				if _, err := o.f(d); err != nil {
					return err.Error()
				}
				return hookCalls(o.kind, order, hookVals(order))
			})
			for _, bad := range order {
				bad := bad
				c.Case("hooks|"+o.name+"|"+strings.Join(order, ",")+"|error "+bad, nil, func() string {
					c.Nontrivial(o.name + strings.Join(order, ",") + bad)
					hookPut, hookFail = "", o.kind+" "+bad
					defer func() { hookFail = "" }()
					d, err := hookDoc(order, true)
					if err != nil {
						return err.Error()
					}
					_, err = o.f(d)
					if err == nil {
						return "the error of " + bad + " is lost"
					}
					if !errors.Is(err, errHook) && !strings.Contains(err.Error(), errHook.Error()) {
						return "the error of " + bad + " is replaced by " + err.Error()
					}
					// the next attempt synchronizes again
					hookFail, hookLog = "", nil
					if _, err := o.f(d); err != nil {
						return err.Error()
					}
					return hookCalls(o.kind, order, hookVals(order))
				})
			}
			if o.kind != "to" || o.name == "ListPaths" {
				continue
			}
			for _, put := range order {
				put := put
				c.Case("hooks|"+o.name+"|"+strings.Join(order, ",")+"|put by "+put, nil, func() string {
					c.Nontrivial(o.name + strings.Join(order, ",") + "put" + put)
					hookFail, hookPut = "", put
					defer func() { hookPut = "" }()
					d, err := hookDoc(order, false)
					if err != nil {
						return err.Error()
					}
					b, err := o.f(d)
					if err != nil {
						return err.Error()
					}
					if n := strings.Count(string(b), "put by "+put); n != len(order) {
						return fmt.Sprintf("%d of %d synchronized values are written", n, len(order))
					}
					return ""
				})
			}
		}
		for _, js := range []bool{false, true} {
			order, js := order, js
			src := func() []byte {
				hookFail, hookPut = "", ""
				d, err := hookDoc(order, true)
				if err != nil {
					return nil
				}
				var b []byte
				if js {
					b, _ = json.Marshal(d)
				} else {
					b, _ = xmp.Marshal(d)
				}
				return b
			}
			read := func(b []byte, d *xmp.Document) error {
				if js {
					return json.Unmarshal(b, d)
				}
				return xmp.Unmarshal(b, d)
			}
			key := fmt.Sprintf("hooks|read json=%v|%s", js, strings.Join(order, ","))
			c.Case(key, nil, func() string {
				c.Nontrivial(key)
				b := src()
				hookLog = nil
				if err := read(b, xmp.NewDocument()); err != nil {
					return err.Error()
				}
				return hookCalls("from", order, hookVals(order))
			})
			for _, bad := range order {
				bad := bad
				c.Case(key+"|error "+bad, nil, func() string {
					c.Nontrivial(key + bad)
					b := src()
					hookFail = "from " + bad
					defer func() { hookFail = "" }()
					err := read(b, xmp.NewDocument())
					if err == nil {
						return "the error of " + bad + " is lost"
					}
					if !errors.Is(err, errHook) && !strings.Contains(err.Error(), errHook.Error()) {
						return "the error of " + bad + " is replaced by " + err.Error()
					}
					return ""
				})
			}
		}
	}
}
