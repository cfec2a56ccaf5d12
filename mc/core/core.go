// Package core is the bounded exhaustive exploration engine shared by every
// check: case enumeration with sharding over worker processes, breadth-first
// search over operation histories, crash/hang containment, known findings and
// evidence files.
package core

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one property's decision procedure.
type Check struct {
	ID    string
	Level string // exploration | fault_enumeration | model_checking
	// Shards is the number of worker processes (each explores a disjoint,
	// deterministic part of the space; 0 or 1: a single worker).
	Shards int
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Assumptions are the things trusted or left outside the bound.
	Assumptions []string
	Run         func(c *Ctx)
}

var registry = map[string]*Check{}

// Add registers a check.
func Add(c *Check) { registry[c.ID] = c }

// Violation is one counterexample.
type Violation struct {
	Property   string `json:"property"`
	Key        string `json:"key"`    // identity of the failing case
	What       string `json:"what"`   // what was observed
	Replay     any    `json:"replay"` // the full case, written out
	Reproduced string `json:"reproduced"`
	HowTo      string `json:"how_to_replay"`
}

// Ctx is the context of one worker.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int
	Shard    int
	Shards   int
	Deadline time.Time
	only     string // replay a single case key

	idx int64

	own         int
	Evaluations int64
	States      int64
	Transitions int64
	Traces      int64
	nontrivial  map[uint64]struct{}
	outcomes    map[uint64]struct{}
	samples     []any
	bounds      map[string]any
	Violations  []Violation
	capped      string
	cur         []byte // mmap'ed current case
	caseStart   atomic.Int64
	group       string
	perGroup    map[string]int64
	known       map[string]string
}

func (c *Ctx) fresh() int {
	n := 0
	for _, v := range c.Violations {
		if _, ok := c.known[v.Key]; !ok {
			n++
		}
	}
	return n
}

// Thorough says whether this is the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// Group names the part of the space explored from here on (reported per part).
func (c *Ctx) Group(name string) { c.group = name }

// Bound records a bound of the exploration in the evidence.
func (c *Ctx) Bound(name string, v any) { c.bounds[name] = v }

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Nontrivial counts a distinct non-trivial case.
func (c *Ctx) Nontrivial(s string) { c.nontrivial[h64(s)] = struct{}{} }

// Outcome counts a distinct observed outcome.
func (c *Ctx) Outcome(s string) { c.outcomes[h64(s)] = struct{}{} }

// Sample writes a case out in the evidence (a few are kept).
func (c *Ctx) Sample(v any) {
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
}

// Stop says whether exploration must end (deadline or enough violations).
func (c *Ctx) Stop() bool {
	if c.capped != "" {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.capped = "internal deadline"
		return true
	}
	if c.fresh() >= maxViol() {
		c.capped = "stopped after enough violations"
		return true
	}
	return false
}

// Block yields once if the next block belongs to this shard; the cases inside
// are then all this shard's: for range c.Block() { ... }
func (c *Ctx) Block() func(func() bool) {
	return func(yield func() bool) {
		if !c.Mine() {
			return
		}
		c.own++
		defer func() { c.own-- }()
		yield()
	}
}

// Mine says whether the next item belongs to this shard. It must not guard
// calls of Case, which asks itself.
func (c *Ctx) Mine() bool {
	if c.own > 0 {
		panic("Mine inside Block")
	}
	i := c.idx
	c.idx++
	return c.Shards <= 1 || int(i%int64(c.Shards)) == c.Shard
}

func (c *Ctx) setCur(s string) {
	if c.cur == nil {
		return
	}
	n := len(s)
	if n > len(c.cur)-4 {
		n = len(c.cur) - 4
	}
	binary.LittleEndian.PutUint32(c.cur, uint32(n))
	copy(c.cur[4:], s[:n])
}

// Guard runs f and turns a panic into a message.
func Guard(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

// Panics runs f and returns the panic message ("" if it returned normally).
func Panics(f func()) string {
	return Guard(func() string { f(); return "" })
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "go-xmp") || strings.Contains(l, "/repo/") || strings.Contains(l, "/checks/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Case evaluates one case of the space, if it is this shard's. key identifies
// the case; replay writes it out; f returns "" if the property held.
func (c *Ctx) Case(key string, replay func() any, f func() string) bool {
	if c.only != "" {
		if key != c.only {
			return true
		}
	} else {
		if c.own == 0 && !c.Mine() {
			return true
		}
		if c.Evaluations%64 == 0 && c.Stop() {
			return false
		}
		if c.capped != "" {
			return false
		}
	}
	c.Evaluations++
	c.perGroup[c.group]++
	c.setCur(key)
	c.caseStart.Store(time.Now().UnixNano())
	msg := Guard(f)
	c.caseStart.Store(0)
	if msg != "" {
		n := 1
		for i := 0; i < 4; i++ {
			if Guard(f) != "" {
				n++
			}
		}
		var rp any
		if replay != nil {
			rp = replay()
		}
		c.Violations = append(c.Violations, Violation{
			Property: c.ID, Key: key, What: msg, Replay: rp,
			Reproduced: fmt.Sprintf("%d/5", n),
			HowTo:      fmt.Sprintf("cd /verif && VERIF_TIER=%s ./run.sh %s -key-file <this file>", c.Tier, c.ID),
		})
		return false
	}
	return true
}

// Report records a violation found outside Case.
func (c *Ctx) Report(key, what string, replay any) {
	c.Violations = append(c.Violations, Violation{Property: c.ID, Key: key, What: what, Replay: replay, Reproduced: "1/1",
		HowTo: fmt.Sprintf("cd /verif && VERIF_TIER=%s ./run.sh %s", c.Tier, c.ID)})
}

// System couples the implementation with its reference model for BFS.
type System interface {
	// Reset brings implementation and model to the initial state `init`.
	Reset(init int)
	// Apply performs operation op on both and returns "" if they agree.
	Apply(op int) string
	// Canon is the canonical form of the joint state.
	Canon() string
	// Ops names the operations; Inits the initial states.
	Ops() []string
	Inits() []string
}

// BFS explores every operation sequence up to depth, merging equal states.
// Every transition replays its whole history on a fresh implementation.
func (c *Ctx) BFS(name string, s System, depth int) {
	if c.Stop() {
		return
	}
	c.Group(name)
	type node struct {
		init int
		hist []int
	}
	seen := map[string]struct{}{}
	ops, inits := s.Ops(), s.Inits()
	frontier := []node{}
	replay := func(n node) string {
		s.Reset(n.init)
		for _, o := range n.hist {
			if m := s.Apply(o); m != "" {
				return m
			}
		}
		return ""
	}
	descr := func(n node) any {
		h := []string{}
		for _, o := range n.hist {
			h = append(h, ops[o])
		}
		return map[string]any{"system": name, "initial": inits[n.init], "history": h}
	}
	keyOf := func(n node) string {
		var b strings.Builder
		b.WriteString(name)
		b.WriteByte('|')
		b.WriteString(inits[n.init])
		for _, o := range n.hist {
			b.WriteByte('|')
			b.WriteString(ops[o])
		}
		return b.String()
	}
	for i := range inits {
		n := node{init: i}
		if m := Guard(func() string { return replay(n) }); m != "" {
			c.Report(keyOf(n), m, descr(n))
			continue
		}
		k := s.Canon()
		if _, ok := seen[k]; ok {
			continue
		}
		seen[k] = struct{}{}
		frontier = append(frontier, n)
		c.States++
	}
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next []node
		for _, n := range frontier {
			for o := range ops {
				if c.Stop() {
					return
				}
				nn := node{n.init, append(append(make([]int, 0, len(n.hist)+1), n.hist...), o)}
				key := keyOf(nn)
				c.setCur(key)
				c.caseStart.Store(time.Now().UnixNano())
				msg := Guard(func() string { return replay(nn) })
				c.caseStart.Store(0)
				c.Transitions++
				c.Traces++
				c.Evaluations++
				c.perGroup[c.group]++
				if msg != "" {
					r := 1
					for i := 0; i < 4; i++ {
						if Guard(func() string { return replay(nn) }) != "" {
							r++
						}
					}
					c.Violations = append(c.Violations, Violation{Property: c.ID, Key: key, What: msg, Replay: descr(nn),
						Reproduced: fmt.Sprintf("%d/5", r),
						HowTo:      fmt.Sprintf("cd /verif && VERIF_TIER=%s ./run.sh %s", c.Tier, c.ID)})
					continue
				}
				k := s.Canon()
				if _, ok := seen[k]; ok {
					continue
				}
				seen[k] = struct{}{}
				c.States++
				c.Outcome(name + k)
				c.Nontrivial(key)
				next = append(next, nn)
			}
		}
		if len(next) > 0 {
			c.Sample(descr(next[len(next)-1]))
		}
		frontier = next
	}
}

// ---------------------------------------------------------------- driver

type result struct {
	Evaluations, States, Transitions, Traces int64
	Nontrivial, Outcomes                     []uint64
	Samples                                  []any
	Bounds                                   map[string]any
	Violations                               []Violation
	Capped                                   string
	PerGroup                                 map[string]int64
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Main is the entry point of the mc binary.
func Main() {
	var (
		id      = flag.String("check", "", "property id")
		shard   = flag.Int("shard", -1, "worker shard")
		shards  = flag.Int("shards", 1, "number of shards")
		out     = flag.String("out", "", "worker result file")
		only    = flag.String("key", "", "run only the case with this key")
		keyFile = flag.String("key-file", "", "run only the case of this replay file")
		list    = flag.Bool("list", false, "list checks")
	)
	flag.Parse()
	if *list {
		ids := []string{}
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	ch := registry[*id]
	if ch == nil {
		fmt.Fprintf(os.Stderr, "unknown check %q\n", *id)
		os.Exit(2)
	}
	if *keyFile != "" {
		b, err := os.ReadFile(*keyFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*only = v.Key
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *shard >= 0 {
		worker(ch, tier, seed, *shard, *shards, *out, *only)
		return
	}
	parent(ch, tier, seed, *only)
}

func budget(tier string) time.Duration {
	if d, err := time.ParseDuration(os.Getenv("MC_BUDGET")); err == nil { // developing only
		return d
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if tier == "thorough" {
		return 13 * time.Minute
	}
	return 8 * time.Minute
}

func newCtx(ch *Check, tier string, seed int) *Ctx {
	return &Ctx{
		ID: ch.ID, Tier: tier, Seed: seed, Shards: 1,
		Deadline:   time.Now().Add(budget(tier)),
		nontrivial: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{},
		bounds: map[string]any{}, perGroup: map[string]int64{}, group: "all",
		known: loadKnown(ch.ID),
	}
}

const hangLimit = 90 * time.Second

func worker(ch *Check, tier string, seed, shard, shards int, out, only string) {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
	c := newCtx(ch, tier, seed)
	c.Shard, c.Shards, c.only = shard, shards, only
	if f, err := os.OpenFile(out+".cur", os.O_RDWR|os.O_CREATE, 0644); err == nil {
		f.Truncate(1 << 16)
		if b, err := syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			c.cur = b
		}
		f.Close()
	}
	go func() {
		for {
			time.Sleep(time.Second)
			if t := c.caseStart.Load(); t != 0 && time.Since(time.Unix(0, t)) > hangLimit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HANG: case did not terminate within %v\n%s\n", hangLimit, buf[:n])
				os.Exit(3)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				fmt.Fprintf(os.Stderr, "MEMORY: case exceeded 6 GiB of heap\n")
				os.Exit(3)
			}
		}
	}()
	if c.cur != nil && only == "" {
		c.setCur("(setup)")
	}
	if fn := os.Getenv("MC_PROF"); fn != "" && shard == 0 { // developing only
		if f, err := os.Create(fn); err == nil {
			pprof.StartCPUProfile(f)
			defer f.Close()
		}
	}
	ch.Run(c)
	pprof.StopCPUProfile()
	r := result{Evaluations: c.Evaluations, States: c.States, Transitions: c.Transitions, Traces: c.Traces,
		Samples: c.samples, Bounds: c.bounds, Violations: c.Violations, Capped: c.capped, PerGroup: c.perGroup}
	for k := range c.nontrivial {
		r.Nontrivial = append(r.Nontrivial, k)
	}
	for k := range c.outcomes {
		r.Outcomes = append(r.Outcomes, k)
	}
	f, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriter(f)
	if err := json.NewEncoder(w).Encode(r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w.Flush()
	f.Close()
}

func parent(ch *Check, tier string, seed int, only string) {
	start := time.Now()
	n := ch.Shards
	if n < 1 || only != "" {
		n = 1
	}
	tmp, err := os.MkdirTemp("", "mc-"+ch.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	results := make([]*result, n)
	crashes := make([]*Violation, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("r%d", i))
			args := []string{"-check", ch.ID, "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(n), "-out", out}
			if only != "" {
				args = append(args, "-key", only)
			}
			cmd := exec.Command(os.Args[0], args...)
			var eb strings.Builder
			cmd.Stderr = &limitWriter{w: &eb, n: 1 << 18}
			cmd.Stdout = os.Stderr
			cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS="+strconv.Itoa(procs(n)))
			err := cmd.Run()
			if err != nil {
				cur := ""
				if b, e := os.ReadFile(out + ".cur"); e == nil && len(b) > 4 {
					l := int(binary.LittleEndian.Uint32(b))
					if l <= len(b)-4 {
						cur = string(b[4 : 4+l])
					}
				}
				se := eb.String()
				if strings.Contains(se, "fatal error:") || strings.Contains(se, "HANG:") || strings.Contains(se, "MEMORY:") || strings.Contains(se, "panic:") {
					if len(se) > 4000 {
						se = se[:4000]
					}
					crashes[i] = &Violation{Property: ch.ID, Key: "crash:" + cur, What: "the process did not survive the case: " + se,
						Replay: map[string]any{"case": cur}, Reproduced: "1/1"}
					return
				}
				errs[i] = fmt.Errorf("worker %d: %v: %s", i, err, se)
				return
			}
			b, err := os.ReadFile(out)
			if err != nil {
				errs[i] = err
				return
			}
			var r result
			if err := json.Unmarshal(b, &r); err != nil {
				errs[i] = err
				return
			}
			results[i] = &r
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.RemoveAll(tmp)
			os.Exit(2)
		}
	}
	total := result{Bounds: map[string]any{}, PerGroup: map[string]int64{}}
	seenSample := map[string]bool{}
	nt, oc := map[uint64]struct{}{}, map[uint64]struct{}{}
	for i := range results {
		if crashes[i] != nil {
			total.Violations = append(total.Violations, *crashes[i])
		}
		r := results[i]
		if r == nil {
			continue
		}
		total.Evaluations += r.Evaluations
		total.States += r.States
		total.Transitions += r.Transitions
		total.Traces += r.Traces
		for _, k := range r.Nontrivial {
			nt[k] = struct{}{}
		}
		for _, k := range r.Outcomes {
			oc[k] = struct{}{}
		}
		for _, s := range r.Samples {
			b, _ := json.Marshal(s)
			if len(total.Samples) < 6 && !seenSample[string(b)] {
				seenSample[string(b)] = true
				total.Samples = append(total.Samples, s)
			}
		}
		for k, v := range r.Bounds {
			total.Bounds[k] = v
		}
		for k, v := range r.PerGroup {
			total.PerGroup[k] += v
		}
		total.Violations = append(total.Violations, r.Violations...)
		if r.Capped != "" {
			total.Capped = r.Capped
		}
	}
	known := loadKnown(ch.ID)
	var fresh []Violation
	knownHits := map[string]int{}
	for _, v := range total.Violations {
		if what, ok := known[v.Key]; ok {
			knownHits[what]++
			continue
		}
		fresh = append(fresh, v)
	}
	for w := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, w)
	}
	code := 0
	if len(fresh) > 0 {
		code = 1
		dir := filepath.Join(verifDir(), "evidence", "replays")
		os.MkdirAll(dir, 0755)
		for i, v := range fresh {
			if i >= 5 && os.Getenv("MC_MAXVIOL") == "" {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", ch.ID, i))
			b, _ := json.MarshalIndent(v, "", "  ")
			os.WriteFile(p, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, p)
			fmt.Printf("  case: %.300s\n  what: %.1200s\n", v.Key, v.What)
		}
	}
	cov := map[string]any{
		"samples": total.Samples, "rule": ch.Rule, "exhaustive": total.Capped == "" && only == "",
		"bounds": total.Bounds, "distinct_outcomes": len(oc), "per_part": total.PerGroup, "workers": n,
		"known_findings_hit": len(knownHits),
	}
	if total.Capped != "" {
		cov["capped"] = total.Capped
	}
	if ch.Level == "model_checking" {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = total.States, total.Transitions, total.Traces
		cov["evaluations"] = total.Evaluations
	} else {
		cov["evaluations"], cov["distinct_nontrivial"] = total.Evaluations, len(nt)
		if total.States > 0 {
			cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = total.States, total.Transitions, total.Traces
		}
	}
	if only == "" {
		ev := map[string]any{
			"property": ch.ID, "tier": tier, "seed": seed, "level": ch.Level, "coverage": cov,
			"assumptions": ch.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		}
		b, _ := json.MarshalIndent(ev, "", "  ")
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(verifDir(), "evidence", ch.ID+".json"), b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.RemoveAll(tmp)
			os.Exit(2)
		}
	}
	fmt.Printf("%s tier=%s evaluations=%d nontrivial=%d outcomes=%d states=%d transitions=%d violations=%d known=%d exhaustive=%v wall=%.1fs\n",
		ch.ID, tier, total.Evaluations, len(nt), len(oc), total.States, total.Transitions, len(fresh), len(knownHits), total.Capped == "", time.Since(start).Seconds())
	os.RemoveAll(tmp)
	os.Exit(code)
}

func procs(n int) int {
	if n >= 4 {
		return 2
	}
	return 4
}

type limitWriter struct {
	w *strings.Builder
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

// loadKnown reads the committed known findings: key -> what fails.
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return m
	}
	var f struct {
		Findings []struct {
			Property string   `json:"property"`
			Keys     []string `json:"keys"`
			What     string   `json:"what"`
		} `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, x := range f.Findings {
		if x.Property == id {
			for _, k := range x.Keys {
				m[k] = x.What
			}
		}
	}
	return m
}

// maxViol is the number of violations after which a worker stops.
func maxViol() int {
	if n, err := strconv.Atoi(os.Getenv("MC_MAXVIOL")); err == nil && n > 0 {
		return n
	}
	return 12
}
