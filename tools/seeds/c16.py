PRE='''package main

import (
	"bytes"
	"fmt"
	"os"
	"sync"
	"time"
	"runtime"

	"github.com/trimmer-io/go-xmp/xmp"
)

var _ = bytes.Equal
var _ sync.Mutex
var _ time.Time
var _ = runtime.Gosched

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }
'''
# 1: recursive read lock
seed('C16-rlock','C16',[('xmp/registry.go','''func (r *Registry) Short(uri, name string) string {
	pre := r.GetPrefix(uri)''','''func (r *Registry) Short(uri, name string) string {
	r.m.RLock()
	defer r.m.RUnlock()
	pre := r.GetPrefix(uri)''')],PRE+'''
func main() {
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 200000; i++ {
					if g < 2 {
						xmp.Register(xmp.NewNamespace(fmt.Sprint("p", g), fmt.Sprint("http://p/", g), nil))
					} else {
						xmp.NsRegistry.Short("http://purl.org/dc/elements/1.1/", "x")
					}
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		fail("deadlock")
	}
}
''','a registration that starts between the two read locks of one lookup','looking up a prefix while a namespace is registered deadlocks')
# 2: publish type info before it is complete
seed('C16-publish','C16',[('xmp/typeinfo.go','''	n := typ.NumField()
	for i := 0; i < n; i++ {
		f := typ.Field(i)
		if (f.PkgPath''','''	tinfoLock.Lock()
	m[typ] = tinfo
	tinfoLock.Unlock()
	n := typ.NumField()
	for i := 0; i < n; i++ {
		f := typ.Field(i)
		if (f.PkgPath''')],PRE+'''
type m0 struct{ A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P string `xmp:"-"` }
'''+'''
type M struct {
	m0
	ns *xmp.Namespace
	St interface{} `xmp:"cm:st"`
}
func (m *M) Can(n string) bool                 { return n == "cm" }
func (m *M) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{m.ns} }
func (m *M) SyncModel(d *xmp.Document) error   { return nil }
func (m *M) SyncFromXMP(d *xmp.Document) error { return nil }
func (m *M) SyncToXMP(d *xmp.Document) error   { return nil }
func (m *M) CanTag(tag string) bool            { return false }
func (m *M) GetTag(tag string) (string, error) { return "", nil }
func (m *M) SetTag(tag, value string) error    { return nil }

func main() {
	ns := xmp.NewNamespace("cm", "http://c/", func(string) xmp.Model { return nil })
	for i := 0; i < 3000; i++ {
		t := newType(i)
		var got [8]string
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := range got {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				v := t()
				d := xmp.NewDocument()
				d.AddModel(&M{ns: ns, St: v})
				<-start
				for j := 0; j < g*20; j++ {
					runtime.Gosched()
				}
				b, err := xmp.Marshal(d)
				got[g] = fmt.Sprint(string(b), err)
			}()
		}
		close(start)
		wg.Wait()
		for g := range got {
			if got[g] != got[0] {
				fail("%s\\n%s", got[0], got[g])
			}
		}
	}
}
'''.replace('import','import')+'''
func newType(i int) func() interface{} {
	var f []reflect.StructField
	for j := 0; j < 40; j++ {
		f = append(f, reflect.StructField{Name: fmt.Sprintf("F%d", j), Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`xmp:"cm:f%d_%d"`, i, j))})
	}
	t := reflect.StructOf(f)
	return func() interface{} {
		v := reflect.New(t)
		for j := 0; j < 40; j++ {
			v.Elem().Field(j).SetString("v")
		}
		return v.Interface()
	}
}
''','two goroutines using a type the library has not seen before','a document is written without the fields another goroutine has not analysed yet')
specs[-1]=tuple(list(specs[-1][:3])+[specs[-1][3].replace('"runtime"\n','"runtime"\n\t"reflect"\n')]+list(specs[-1][4:]))
# 3: group list shared
seed('C16-group','C16',[('xmp/registry.go','''		v := make(NamespaceList, len(l))
		copy(v, l)
		return v, nil''','''		return l, nil''')],PRE+'''
func main() {
	a, err := xmp.GetGroupNamespaces(xmp.ImageMetadata)
	if err != nil { return }
	n := a[0]
	a[0] = nil
	b, _ := xmp.GetGroupNamespaces(xmp.ImageMetadata)
	if b[0] != n { fail("group changed by its user") }
}
'''.replace('"github.com/trimmer-io/go-xmp/xmp"','"github.com/trimmer-io/go-xmp/xmp"\n\t_ "github.com/trimmer-io/go-xmp/models/exif"'),'a caller that edits or appends to the list it got','the group table is shared with its users')
specs[-1]=tuple(list(specs[-1][:3])+[specs[-1][3].replace('"github.com/trimmer-io/go-xmp/xmp"','"github.com/trimmer-io/go-xmp/xmp"\n\t_ "github.com/trimmer-io/go-xmp/models"')]+list(specs[-1][4:]))
# 4: last looked-up prefix cached
seed('C16-cache','C16',[('xmp/registry.go','''	m         sync.RWMutex
}''','''	m         sync.RWMutex
	last      *Namespace
}'''),('xmp/registry.go','''	if ns, ok := r.nsUriMap[uri]; ok {
		return ns.GetName()
	}
	return ""''','''	if r.last == nil || r.last.GetURI() != uri {
		ns, ok := r.nsUriMap[uri]
		if !ok {
			return ""
		}
		r.last = ns
	}
	return r.last.GetName()''')],PRE+'''
func main() {
	var wg sync.WaitGroup
	stop := time.Now().Add(10 * time.Second)
	bad := make(chan string, 8)
	for g := 0; g < 8; g++ {
		ns := xmp.NewNamespace(fmt.Sprint("q", g), fmt.Sprint("http://q/", g), nil)
		xmp.Register(ns)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stop) {
				for i := 0; i < 1000; i++ {
					if p := xmp.NsRegistry.GetPrefix(ns.GetURI()); p != ns.GetName() {
						bad <- p
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		fail("wrong prefix %s", <-bad)
	}
}
''','two goroutines that look up different namespaces at the same time','a lookup returns the namespace another goroutine asked for')
