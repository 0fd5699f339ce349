package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	exitHang   = 97
	exitMemory = 98
	exitRace   = 66
)

// ---------------------------------------------------------------- worker

type shardReport struct {
	Evals      int            `json:"evals"`
	NonTrivial int            `json:"nontrivial"`
	Classes    map[string]int `json:"classes"`
	Skips      map[string]int `json:"skips"`
	Samples    []string       `json:"samples"`
	Truncated  bool           `json:"truncated"`
	Flaky      string         `json:"flaky,omitempty"`
	Done       bool           `json:"done"`
	Harness    string         `json:"harness,omitempty"` // error of the harness itself
}

type tbStop struct{}

// workerTB is what rapid reports to
type workerTB struct {
	failed bool
	logs   []string
}

func (w *workerTB) Helper()                   {}
func (w *workerTB) Name() string              { return "xv" }
func (w *workerTB) Logf(f string, a ...any)   { w.logs = append(w.logs, fmt.Sprintf(f, a...)) }
func (w *workerTB) Log(a ...any)              { w.logs = append(w.logs, fmt.Sprint(a...)) }
func (w *workerTB) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (w *workerTB) Skip(a ...any)             { panic(tbStop{}) }
func (w *workerTB) SkipNow()                  { panic(tbStop{}) }
func (w *workerTB) Errorf(f string, a ...any) { w.Logf(f, a...); w.failed = true }
func (w *workerTB) Error(a ...any)            { w.Log(a...); w.failed = true }
func (w *workerTB) Fatalf(f string, a ...any) { w.Logf(f, a...); w.failed = true; panic(tbStop{}) }
func (w *workerTB) Fatal(a ...any)            { w.Log(a...); w.failed = true; panic(tbStop{}) }
func (w *workerTB) FailNow()                  { w.failed = true; panic(tbStop{}) }
func (w *workerTB) Fail()                     { w.failed = true }
func (w *workerTB) Failed() bool              { return w.failed }

type watchdog struct {
	seq     atomic.Int64
	running atomic.Bool
	busy    atomic.Bool
}

// tick tells the watchdog that a long case goes on
var tick = func() {}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// watch ends the process when one case takes too much. It judges CPU time, not the clock, so a busy machine
// doesn't matter; a case that waits forever without using CPU is given minutes.
func (w *watchdog) watch(cpu time.Duration, heap uint64, wall time.Duration) {
	go func() {
		var seq int64 = -1
		var c0 time.Duration
		var t0 time.Time
		for {
			time.Sleep(50 * time.Millisecond)
			if !w.busy.Load() {
				seq = -1
				continue
			}
			if s := w.seq.Load(); s != seq {
				seq, c0, t0 = s, cpuTime(), time.Now()
				continue
			}
			if heapBytes() > heap {
				os.Exit(exitMemory)
			}
			if used := cpuTime() - c0; used > cpu {
				os.Exit(exitHang)
			} else if time.Since(t0) > wall && used < cpu/10 {
				os.Exit(exitHang)
			}
		}
	}()
}

func mixSeed(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	if h == 0 {
		h = 1
	}
	return h
}

func limits() {
	debug.SetMaxStack(400 << 20)
	debug.SetGCPercent(200)
}

func worker(args []string) {
	prop, tier, shardS, nS, seed, out := args[0], args[1], args[2], args[3], args[4], args[5]
	shard, _ := strconv.Atoi(shardS)
	n, _ := strconv.Atoi(nS)
	ck := checks[prop]
	limits()
	if ck.Setup != nil {
		ck.Setup()
	}
	total := ck.Quick
	wallCap := 200 * time.Second
	if tier == "thorough" {
		total = ck.Thorough
		wallCap = 700 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("XV_SPENT")); err == nil {
		wallCap -= time.Duration(s) * time.Second
	}
	if s := os.Getenv("XV_CASES"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	per := total / n
	if shard < total%n {
		per++
	}
	rep := &shardReport{Classes: map[string]int{}, Skips: map[string]int{}}
	base := filepath.Join(out, "shard"+shardS)
	cur, err := os.Create(base + ".cur")
	if err != nil {
		panic(err)
	}
	hf, err := os.Create(base + ".hash")
	if err != nil {
		panic(err)
	}
	hw := bufio.NewWriter(hf)
	wd := &watchdog{}
	wd.watch(12*time.Second, 1600<<20, 150*time.Second)
	tick = func() { wd.seq.Add(1) }

	journal := func(c *Case) {
		b := c.json()
		cur.WriteAt(b, 0)
		cur.Truncate(int64(len(b)))
	}
	var first, last *replayFile
	record := func(c *Case, x *Ctx) {
		rf := &replayFile{Property: prop, What: x.fail, Describe: describe(c), Case: c}
		if first == nil {
			first = rf
		}
		last = rf
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(base+".fail.tmp", b, 0o644)
		os.Rename(base+".fail.tmp", base+".fail")
	}
	counting := true
	one := func(c *Case) *Ctx {
		journal(c)
		wd.seq.Add(1)
		wd.busy.Store(true)
		x := runCase(ck, c)
		wd.busy.Store(false)
		if counting {
			rep.Evals++
			for k, v := range x.classes {
				rep.Classes[k] += v
			}
			if x.skipped != "" {
				rep.Skips[x.skipped]++
			}
			if x.nontrivial && x.skipped == "" {
				rep.NonTrivial++
				binary.Write(hw, binary.LittleEndian, c.hash())
				k := rep.NonTrivial
				if len(rep.Samples) < 6 && (k == 1 || k%(per/6+1) == 0) {
					rep.Samples = append(rep.Samples, describe(c))
				}
			}
		}
		if x.fail != "" {
			counting = false
			record(c, x)
		}
		return x
	}
	finish := func() {
		hw.Flush()
		hf.Close()
		rep.Done = true
		b, _ := json.Marshal(rep)
		os.WriteFile(base+".json", b, 0o644)
	}
	if shard == 0 {
		for _, f := range corpusCases(prop) {
			c, err := loadCase(f)
			if err != nil {
				rep.Harness = err.Error()
				finish()
				return
			}
			if x := one(c); x.fail != "" {
				finish()
				return
			}
			rep.Classes["corpus case"]++
		}
		if ck.Once != nil {
			c := &Case{Prop: prop, Kind: "once"}
			journal(c)
			wd.seq.Add(1)
			wd.busy.Store(true)
			x := guarded(ck.Once)
			wd.busy.Store(false)
			rep.Evals += ck.OnceN
			for k, v := range x.classes {
				rep.Classes[k] += v
			}
			if x.fail != "" {
				record(c, x)
				finish()
				return
			}
		}
	}
	start := time.Now()
	if ck.Enum != nil && os.Getenv("XV_AGAIN") == "" {
		type enough struct{}
		i := 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(enough); !ok {
						panic(r)
					}
				}
			}()
			ck.Enum(tier == "thorough", func(c *Case) {
				if i++; i%n != shard {
					return
				}
				if time.Since(start) > wallCap/2 {
					rep.Truncated = true
					panic(enough{})
				}
				c.Prop = prop
				rep.Classes["small world"]++
				if one(c).fail == "" {
					return
				}
				for _, s := range c.In { // with one text
					small := *c
					small.In = []string{s}
					if one(&small).fail != "" {
						break
					}
				}
				panic(enough{})
			})
		}()
		if first != nil {
			finish()
			return
		}
	}
	flag.Set("rapid.checks", strconv.Itoa(per))
	flag.Set("rapid.seed", strconv.FormatUint(mixSeed(seed, prop, tier, shardS), 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")
	tb := &workerTB{}
	func() {
		defer func() {
			r := recover()
			if _, ok := r.(tbStop); r != nil && !ok {
				rep.Harness = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		if per == 0 {
			return
		}
		rapid.Check(tb, func(t *rapid.T) {
			if time.Since(start) > wallCap && first == nil {
				rep.Truncated = true
				return
			}
			c := ck.Draw(t)
			c.Prop = prop
			if x := one(c); x.fail != "" {
				t.Fatalf("property violated")
			}
		})
	}()
	if tb.failed && first == nil {
		rep.Harness = strings.Join(tb.logs, "\n")
	}
	if first != nil && last != nil {
		// rapid's last execution of a failing case is the minimal one
		rep.Flaky = ""
		for _, l := range tb.logs {
			if strings.Contains(l, "flaky") {
				rep.Flaky = l
			}
		}
	}
	finish()
}

// replayOne runs the case of a file in this process; exit 1 when it fails
func replayOne(path string, heap uint64, cpu time.Duration) int {
	c, err := loadCase(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	ck := checks[c.Prop]
	if ck == nil {
		fmt.Println("unknown property", c.Prop)
		return 2
	}
	limits()
	if ck.Setup != nil {
		ck.Setup()
	}
	wd := &watchdog{}
	wd.watch(cpu, heap, 300*time.Second)
	tick = func() { wd.seq.Add(1) }
	wd.seq.Add(1)
	wd.busy.Store(true)
	var x *Ctx
	if c.Kind == "once" && ck.Once != nil {
		x = guarded(ck.Once)
	} else {
		x = runCase(ck, c)
	}
	fmt.Println(describe(c))
	if x.fail != "" {
		fmt.Printf("FAIL %s\n", x.fail)
		return 1
	}
	if x.skipped != "" {
		fmt.Println("skipped:", x.skipped)
	}
	fmt.Println("ok")
	return 0
}

// ---------------------------------------------------------------- parent

func subReplay(path string, args ...string) (code int, out string) {
	cmd := exec.Command(os.Args[0], append([]string{"replay", path}, args...)...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	b, err := cmd.CombinedOutput()
	if err == nil {
		return 0, string(b)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), string(b)
	}
	return -1, err.Error()
}

func exitWhat(code int, out string) string {
	switch code {
	case exitHang:
		return "evaluation never ends (CPU limit reached)"
	case exitMemory:
		return "evaluation never ends (memory limit reached)"
	case exitRace:
		return "data race"
	}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return "process ended: " + l
		}
	}
	return fmt.Sprintf("process ended with status %d", code)
}

func parent(prop, tier string) int {
	start := time.Now()
	ck := checks[prop]
	if ck == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	seedN, err := strconv.Atoi(seed)
	if err != nil {
		seedN = int(mixSeed(seed) >> 40)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 4 {
		n = 4
	}
	if s := os.Getenv("XV_SHARDS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	dir, err := os.MkdirTemp("", "xv-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)

	type ended struct {
		code   int
		out    string
		again  bool // its last case was run alone
		acode  int
		aout   string
		slow   int // cases that took too long in the worker, but end when run alone
		slowIs string
	}
	ends := make([]ended, n)
	var wg sync.WaitGroup
	var mu sync.Mutex // one case at a time is run alone, it may take much memory
	confirmed := false
	// alone runs the case in which a worker ended again, in a process of its own
	alone := func(i int, c *Case) (code int, out string, ok bool) {
		mu.Lock()
		defer mu.Unlock()
		if costly(c) { // by its meaning
			return 0, "", true
		}
		if confirmed || time.Since(start) > 600*time.Second {
			return 0, "", false // one is enough, and each takes long
		}
		path := filepath.Join(dir, fmt.Sprintf("again%d.json", i))
		jb, _ := json.Marshal(&replayFile{Property: prop, Case: c})
		os.WriteFile(path, jb, 0o644)
		if k := os.Getenv("XV_KEEP"); k != "" {
			os.WriteFile(filepath.Join(k, fmt.Sprintf("%s-again%d-%016x.json", prop, i, c.hash())), jb, 0o644)
		}
		code, out = subReplay(path, "big")
		if code != 0 {
			confirmed = true
		}
		return code, out, true
	}
	current := func(base string) *Case {
		var c Case
		b, err := os.ReadFile(base + ".cur")
		if err != nil || len(b) == 0 || json.Unmarshal(b, &c) != nil {
			return nil
		}
		return &c
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e := &ends[i]
			base := filepath.Join(dir, fmt.Sprintf("shard%d", i))
			sd := seed
			var again []string // a shard that starts again leaves out the small world
			for {
				e.code, e.out, e.again = 0, "", false
				cmd := exec.Command(os.Args[0], "worker", prop, tier, strconv.Itoa(i), strconv.Itoa(n), sd, dir)
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+dir,
					"XV_SPENT="+strconv.Itoa(int(time.Since(start).Seconds())))
				cmd.Env = append(cmd.Env, again...)
				b, err := cmd.CombinedOutput()
				e.out = string(b)
				if ee, ok := err.(*exec.ExitError); ok {
					e.code = ee.ExitCode()
				} else if err != nil {
					e.code = -2
					e.out += err.Error()
				}
				again = append(again[:0], "XV_AGAIN=1")
				if e.code != exitHang && e.code != exitMemory {
					return
				}
				c := current(base)
				if _, err := os.Stat(base + ".fail"); err == nil || c == nil {
					return
				}
				e.acode, e.aout, e.again = alone(i, c)
				if !e.again || e.acode != 0 {
					return
				}
				// slow, but it ends, and the property holds: the shard goes on with other cases
				e.slow++
				e.slowIs = describe(c)
				if e.slow == 4 || c.Kind == "once" {
					return
				}
				sd = fmt.Sprintf("%s+%d", seed, e.slow)
			}
		}(i)
	}
	wg.Wait()

	var fails []*replayFile
	var harness []string
	total := shardReport{Classes: map[string]int{}, Skips: map[string]int{}}
	distinct := map[uint64]bool{}
	for i := 0; i < n; i++ {
		base := filepath.Join(dir, fmt.Sprintf("shard%d", i))
		var rep shardReport
		if b, err := os.ReadFile(base + ".json"); err == nil {
			json.Unmarshal(b, &rep)
		}
		total.Evals += rep.Evals
		total.NonTrivial += rep.NonTrivial
		total.Truncated = total.Truncated || rep.Truncated
		if k := ends[i].slow; k > 0 {
			total.Skips["takes more than 12 s of CPU, but ends"] += k
			fmt.Printf("note: slow case set aside: %s\n", clip(ends[i].slowIs, 600))
		}
		for k, v := range rep.Classes {
			total.Classes[k] += v
		}
		for k, v := range rep.Skips {
			total.Skips[k] += v
		}
		total.Samples = append(total.Samples, rep.Samples...)
		if b, err := os.ReadFile(base + ".hash"); err == nil {
			for len(b) >= 8 {
				distinct[binary.LittleEndian.Uint64(b)] = true
				b = b[8:]
			}
		}
		if rep.Harness != "" {
			harness = append(harness, fmt.Sprintf("shard %d: %s", i, rep.Harness))
		}
		if b, err := os.ReadFile(base + ".fail"); err == nil {
			var rf replayFile
			if json.Unmarshal(b, &rf) == nil {
				fails = append(fails, &rf)
				continue
			}
		}
		if rep.Done && ends[i].code == 0 {
			continue
		}
		// the worker ended in the middle of a case: is it that case?
		c := current(base)
		if c == nil {
			harness = append(harness, fmt.Sprintf("shard %d ended with %d and no case: %s", i, ends[i].code, clip(ends[i].out, 2000)))
			continue
		}
		rf := &replayFile{Property: prop, What: exitWhat(ends[i].code, ends[i].out), Describe: describe(c), Case: c}
		if ends[i].code == exitRace {
			rf.What += "\n" + clip(ends[i].out, 4000)
			fails = append(fails, rf)
			continue
		}
		e := &ends[i]
		if !e.again {
			e.acode, e.aout, e.again = alone(i, c)
		}
		if !e.again {
			continue
		}
		code, out := e.acode, e.aout
		switch code {
		case 0:
			if e.slow > 0 {
				total.Truncated = true // the rest of this shard isn't run
				continue
			}
			harness = append(harness, fmt.Sprintf("shard %d ended with %d, but its case runs alone: %s\n%s", i, ends[i].code, rf.Describe, clip(ends[i].out, 1500)))
		case 1:
			rf.What = clip(out, 3000)
			fails = append(fails, shrinkCrash(rf, dir, i, code))
		default:
			rf.What = exitWhat(code, out)
			fails = append(fails, shrinkCrash(rf, dir, i, code))
		}
	}

	// known findings
	known := knownFindings(prop)
	for _, k := range known {
		path := filepath.Join(verifDir(), k.file)
		code, _ := subReplay(path, "stack")
		if code == 0 {
			fmt.Printf("note: finding no longer reproduces: property=%s %s\n", prop, k.what)
		} else {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		}
	}

	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case.json()) < len(fails[j].Case.json()) })
	code := 0
	if len(fails) > 0 {
		code = 1
	} else if len(harness) > 0 {
		code = 2
	}
	writeEvidence(ck, tier, seedN, &total, len(distinct), len(fails), known, time.Since(start))
	fmt.Printf("%s %s seed=%s: %d cases, %d distinct non-trivial, %d shards, %.1fs\n", prop, tier, seed, total.Evals, len(distinct), n, time.Since(start).Seconds())
	if os.Getenv("XV_VERBOSE") != "" {
		for _, k := range sortedKeys(total.Classes) {
			fmt.Printf("  %-40s %d\n", k, total.Classes[k])
		}
		for _, k := range sortedKeys(total.Skips) {
			fmt.Printf("  SKIP %-35s %d\n", k, total.Skips[k])
		}
	}
	for _, h := range harness {
		fmt.Printf("ERROR %s\n", h)
	}
	if len(fails) > 0 {
		rf := fails[0]
		os.MkdirAll(filepath.Join(verifDir(), "replays"), 0o755)
		path := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%016x.json", prop, rf.Case.hash()))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("failed: %s\n%s\n", rf.Describe, rf.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	return code
}

// shrinkCrash makes a case that ends the process smaller, running each candidate in a process of its own
func shrinkCrash(rf *replayFile, dir string, shard, want int) *replayFile {
	deadline := time.Now().Add(40 * time.Second)
	path := filepath.Join(dir, fmt.Sprintf("shrink%d.json", shard))
	fails := func(c *Case) bool {
		b, _ := json.Marshal(&replayFile{Property: rf.Property, Case: c})
		os.WriteFile(path, b, 0o644)
		code, _ := subReplay(path, "small")
		if want == exitHang || want == exitMemory {
			return code == exitHang || code == exitMemory
		}
		return code == want
	}
	best := rf.Case
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for _, cand := range smaller(best) {
			if time.Now().After(deadline) {
				break
			}
			if fails(cand) {
				best = cand
				changed = true
				break
			}
		}
	}
	return &replayFile{Property: rf.Property, What: rf.What, Describe: describe(best), Case: best}
}

func smaller(c *Case) []*Case {
	var out []*Case
	add := func(f func(n *Case)) {
		n := *c
		n.In = append([]string{}, c.In...)
		n.Ops = append([]Op{}, c.Ops...)
		if c.G != nil {
			n.G = c.G.clone()
		}
		f(&n)
		out = append(out, &n)
	}
	for i := range c.In {
		if len(c.In) > 1 {
			add(func(n *Case) { n.In = []string{c.In[i]} })
		}
	}
	for i := range c.In {
		r := []rune(c.In[i])
		if len(r) > 1 {
			add(func(n *Case) { n.In[i] = string(r[:len(r)/2]) })
			add(func(n *Case) { n.In[i] = string(r[len(r)/2:]) })
			add(func(n *Case) { n.In[i] = string(r[:len(r)-1]) })
			add(func(n *Case) { n.In[i] = string(r[1:]) })
		}
	}
	for i := range c.Ops {
		add(func(n *Case) { n.Ops = append(n.Ops[:i:i], n.Ops[i+1:]...) })
	}
	if len(c.Raw) > 1 {
		h := len(c.Raw) / 2
		add(func(n *Case) { n.Raw = c.Raw[:h] })
		add(func(n *Case) { n.Raw = c.Raw[h:] })
		add(func(n *Case) { n.Raw = c.Raw[:len(c.Raw)-1] })
		add(func(n *Case) { n.Raw = c.Raw[1:] })
	}
	if c.G != nil {
		for i := range c.G.Rules {
			if len(c.G.Rules) > 1 {
				add(func(n *Case) { n.G.Rules = append(n.G.Rules[:i:i], n.G.Rules[i+1:]...) })
			}
			if e := c.G.Rules[i].E; e.K == "cat" {
				for j := range e.Kids {
					if len(e.Kids) > 2 {
						add(func(n *Case) { k := n.G.Rules[i].E; k.Kids = append(k.Kids[:j:j], k.Kids[j+1:]...) })
					}
				}
			}
			c.G.Rules[i].E.children(func(k *Expr) {
				add(func(n *Case) { n.G.Rules[i].E = k.clone() })
			})
		}
	}
	return out
}

type finding struct{ file, what string }

// knownFindings reads the lines "known: property=<id> file=<path> <what fails>"
func knownFindings(prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "file=") {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(f[2], "file="), strings.Join(f[3:], " ")})
	}
	return out
}

func writeEvidence(ck *Check, tier string, seed int, r *shardReport, distinct, violations int, known []finding, wall time.Duration) {
	samples := r.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []string{}
	}
	rule := ck.Rule
	if n := r.Classes["small world"]; n > 0 {
		rule += fmt.Sprintf("; besides the random cases, %d are those of a small world, run one by one in a fixed order (enum.go says which)", n)
	}
	cov := map[string]any{
		"evaluations":         r.Evals,
		"distinct_nontrivial": distinct,
		"rule":                rule,
		"samples":             samples,
		"classes":             r.Classes,
		"skipped":             r.Skips,
		"truncated_by_time":   r.Truncated,
	}
	if len(known) > 0 {
		var ks []string
		for _, k := range known {
			ks = append(ks, k.what)
		}
		cov["known_findings"] = ks
	}
	assume := append([]string{"the reference oracle in /verif/harness states the documented meaning of the rules", "left-recursive grammars are outside of the generated domain (known finding)"}, ck.Assume...)
	ev := map[string]any{
		"property":    ck.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": assume,
		"wall_s":      float64(int(wall.Seconds()*100)) / 100,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", ck.ID+".json"), append(b, '\n'), 0o644)
}

func main() {
	testing.Init()
	smallWorlds()
	args := os.Args[1:]
	flag.CommandLine.Parse(nil)
	if len(args) == 0 {
		fmt.Println("usage: xv run PROPERTY TIER | replay FILE")
		os.Exit(2)
	}
	switch args[0] {
	case "run":
		os.Exit(parent(args[1], args[2]))
	case "worker":
		worker(args[1:])
	case "replay":
		heap, cpu := uint64(4<<30), 90*time.Second
		if len(args) > 2 {
			switch args[2] {
			case "small":
				heap, cpu = 1<<30, 5*time.Second
			case "stack":
				heap, cpu = 1<<30, 30*time.Second
			}
		}
		os.Exit(replayOne(args[1], heap, cpu))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		os.Exit(2)
	}
}
