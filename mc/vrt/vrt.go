// Package vrt is the runtime of the instrumented build: the library's map
// iterations ask it for an order, and its accesses to shared state pass through
// it so that the explorer decides which goroutine goes on.
package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
)

// Sites are the instrumented places, by package. Empty in an ordinary build.
var Sites = map[string]int{}

// Mark is called by every instrumented package.
func Mark(pkg string, ranges, yields int) { Sites[pkg] += ranges + yields }

// Order is asked for the order of n keys (n > 1) at a site. It returns nil for
// the canonical order.
var Order func(site string, n int) []int

var mapMu sync.Mutex

func keys[K comparable, V any, M ~map[K]V](site string, m M) []K {
	l := make([]K, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	names := make(map[K]string, len(l))
	for _, k := range l {
		names[k] = fmt.Sprintf("%v", k)
	}
	sort.Slice(l, func(i, j int) bool { return names[l[i]] < names[l[j]] })
	if Order != nil && len(l) > 1 {
		if p := Order(site, len(l)); p != nil {
			o := make([]K, len(l))
			for i, j := range p {
				o[i] = l[j]
			}
			l = o
		}
	}
	return l
}

// All iterates a map in the order under exploration.
func All[K comparable, V any, M ~map[K]V](site string, m M) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for _, k := range keys(site, m) {
			v, ok := m[k]
			if !ok && k == k {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Values orders the result of reflect's MapKeys.
func Values(site string, l []reflect.Value) []reflect.Value {
	sort.Slice(l, func(i, j int) bool {
		return fmt.Sprint(l[i]) < fmt.Sprint(l[j])
	})
	if Order != nil && len(l) > 1 {
		if p := Order(site, len(l)); p != nil {
			o := make([]reflect.Value, len(l))
			for i, j := range p {
				o[i] = l[j]
			}
			l = o
		}
	}
	return l
}

// The scheduler. Everything here is hidden from the race detector, so that
// handing over control doesn't order the library's accesses.

type thread struct {
	done    bool
	blocked bool // waits for a lock, tried again after any progress
	want    any  // the lock it waits to write
}

var (
	on       bool
	turn     int // the thread that runs, -1 when all are done
	threads  []thread
	steps    int      // decision points so far
	plan     []Switch // what to do at which step
	used     int
	who      [1 << 14]uint8 // the thread at each decision point
	progress int
	dead     bool
	stuck    int
)

// Switch hands control to a thread at a decision point.
type Switch struct{ Step, To int }

// Y is a decision point.
//
//go:norace
func Y() {
	if !on {
		return
	}
	me := turn
	steps++
	progress++
	if steps < len(who) {
		who[steps] = uint8(me)
	}
	for i := range threads {
		threads[i].blocked = false
	}
	if used < len(plan) && plan[used].Step == steps {
		to := plan[used].To
		used++
		if to != me && to < len(threads) && !threads[to].done {
			hand(me, to)
		}
	}
}

//go:norace
func hand(me, to int) {
	turn = to
	wait(me)
}

// wait until it's this thread's turn. When the thread that has the turn is
// blocked in a call of its own the turn is taken from it.
//
//go:norace
func wait(me int) {
	n, seen := 0, progress
	for turn != me && !dead {
		runtime.Gosched()
		if progress != seen {
			n, seen = 0, progress
		}
		n++
		if n > 200000 && turn >= 0 {
			n = 0
			stuck++
			threads[turn].blocked = true
			if !next(turn) {
				dead = true
			}
		}
	}
}

// next gives the turn to some thread that may go on.
//
//go:norace
func next(after int) bool {
	for i := 1; i <= len(threads); i++ {
		t := (after + i) % len(threads)
		if !threads[t].done && !threads[t].blocked {
			progress++
			turn = t
			return true
		}
	}
	return false
}

type locker interface {
	TryLock() bool
	Lock()
}

type rlocker interface {
	TryRLock() bool
	RLock()
}

// Lock locks without blocking the scheduler.
//
//go:norace
func Lock(l locker) {
	if !on {
		l.Lock()
		return
	}
	for !l.TryLock() {
		threads[turn].want = l
		block()
	}
	threads[turn].want = nil
}

// RLock locks for reading without blocking the scheduler.
//
//go:norace
func RLock(l rlocker) {
	if !on {
		l.RLock()
		return
	}
	for pending(l) || !l.TryRLock() {
		block()
	}
}

// pending reports whether another thread waits for writing, which keeps
// readers out like sync.RWMutex does.
//
//go:norace
func pending(l any) bool {
	for i := range threads {
		if i != turn && threads[i].want != nil && threads[i].want == l {
			return true
		}
	}
	return false
}

//go:norace
func block() {
	me := turn
	threads[me].blocked = true
	if !next(me) {
		dead = true
	}
	if dead {
		runtime.Goexit()
	}
	wait(me)
	if dead {
		runtime.Goexit()
	}
}

// Result is one execution.
type Result struct {
	Steps    int
	Deadlock bool
	Stuck    int
	Who      []uint8 // the thread that met each decision point
	Panics   []string
}

// Run executes the functions as threads, starting with thread first, under a
// plan of switches.
func Run(fs []func(), first int, sw []Switch) Result {
	begin(len(fs), first, sw)
	res := Result{Panics: make([]string, len(fs))}
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer finish(i)
			defer func() {
				if r := recover(); r != nil {
					res.Panics[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			start(i)
			if !isDead() {
				f()
			}
		}()
	}
	wg.Wait()
	end(&res)
	return res
}

//go:norace
func begin(n, first int, sw []Switch) {
	threads = make([]thread, n)
	turn, steps, plan, used, progress, dead, stuck = first, 0, sw, 0, 0, false, 0
	on = true
}

//go:norace
func start(i int) { wait(i) }

//go:norace
func isDead() bool { return dead }

//go:norace
func finish(i int) {
	threads[i].done = true
	progress++
	for j := range threads {
		threads[j].blocked = false
	}
	if turn == i && !next(i) {
		turn = -1
	}
}

//go:norace
func end(r *Result) {
	on = false
	r.Steps, r.Deadlock, r.Stuck = steps, dead, stuck
	n := steps + 1
	if n > len(who) {
		n = len(who)
	}
	r.Who = make([]uint8, n)
	for i := range r.Who {
		r.Who[i] = who[i]
	}
}
