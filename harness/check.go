package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// Op is one step of a history (checks of stateful behaviour)
type Op struct {
	K string `json:"k"`
	S string `json:"s,omitempty"`
	T string `json:"t,omitempty"`
	N int    `json:"n,omitempty"`
	M int    `json:"m,omitempty"`
	E *Expr  `json:"e,omitempty"`
}

// Case is one generated case of any check; a replay file holds one.
type Case struct {
	Prop  string   `json:"prop"`
	Kind  string   `json:"kind,omitempty"`
	G     *Gram    `json:"g,omitempty"`
	L     []byte   `json:"l,omitempty"`
	L2    []byte   `json:"l2,omitempty"`
	In    []string `json:"in,omitempty"`
	Raw   []byte   `json:"raw,omitempty"`
	Def   string   `json:"def,omitempty"`
	Rule  string   `json:"rule,omitempty"`
	Flag  int      `json:"flag,omitempty"`
	N     int      `json:"n,omitempty"`
	M     int      `json:"m,omitempty"`
	Ops   []Op     `json:"ops,omitempty"`
	Trees []*MNode `json:"trees,omitempty"`
	Perm  []int    `json:"perm,omitempty"`
}

func (c *Case) json() []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func (c *Case) hash() uint64 {
	h := fnv.New64a()
	h.Write(c.json())
	return h.Sum64()
}

// Ctx collects what one case did
type Ctx struct {
	classes    map[string]int
	nontrivial bool
	skipped    string
	fail       string
}

type failPanic struct{ msg string }
type skipPanic struct{ why string }

func (x *Ctx) Failf(format string, a ...any) { panic(failPanic{fmt.Sprintf(format, a...)}) }
func (x *Ctx) Skip(why string)               { panic(skipPanic{why}) }
func (x *Ctx) Class(name string)             { x.classes[name]++ }
func (x *Ctx) ClassIf(on bool, name string) {
	if on {
		x.classes[name]++
	}
}
func (x *Ctx) NonTrivial(on bool) { x.nontrivial = x.nontrivial || on }

type Check struct {
	ID       string
	Draw     func(t *rapid.T) *Case
	Run      func(c *Case, x *Ctx)
	Once     func(x *Ctx)                       // enumerated part, run once
	OnceN    int                                // how many evaluations that is
	Enum     func(thorough bool, f func(*Case)) // all cases of a small world
	Quick    int                                // cases of the quick tier
	Thorough int
	Rule     string
	Assume   []string
	Setup    func() // before the first case of a process
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// runCase runs one case; panics of the code under test are failures of the property
func runCase(ck *Check, c *Case) (x *Ctx) {
	return guarded(func(x *Ctx) {
		large(c, x)
		ck.Run(c, x)
	})
}

// large counts the cases that have much of something
func large(c *Case, x *Ctx) {
	text := 0
	for _, s := range c.In {
		text = max(text, len(s))
	}
	x.ClassIf(text > 300, "large: text over 300 bytes")
	if c.G == nil {
		return
	}
	kids, word, name, bare := 0, 0, 0, false
	for _, r := range c.G.Rules {
		name = max(name, len(r.Name))
	}
	c.G.walk(func(e *Expr) {
		n := len(e.Ex)
		for _, part := range append([]*Expr{e.Open, e.Esc, e.Close}, e.Ex...) {
			bare = bare || part != nil && (part.K == "cat" || part.K == "choice")
		}
		for _, gr := range e.Groups {
			n = max(n, len(gr), len(e.Groups))
		}
		kids = max(kids, n, len(e.Kids))
		if e.K == "chars" || e.K == "string" {
			word = max(word, len(e.T))
		}
	})
	x.ClassIf(len(c.G.Rules) > 16, "large: over 16 rules")
	x.ClassIf(kids > 8, "large: over 8 parts or alternatives")
	x.ClassIf(word > 16, "large: terminal over 16 bytes")
	x.ClassIf(name > 32, "large: name over 32 chars")
	x.ClassIf(bare, "block part of several rules without brackets")
}

func guarded(f func(x *Ctx)) (x *Ctx) {
	x = &Ctx{classes: map[string]int{}}
	defer func() {
		switch r := recover().(type) {
		case nil:
		case failPanic:
			x.fail = r.msg
		case skipPanic:
			x.skipped = r.why
		case overBudget:
			x.skipped = "model step budget exceeded"
		default:
			x.fail = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000))
		}
	}()
	f(x)
	return x
}

// costly is whether rules of the case take very many steps on texts of it by their meaning, wherever they begin
func costly(c *Case) (yes bool) {
	if c.G == nil || c.Kind == "recursion" || c.Kind == "leftrec" {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			_, yes = r.(overBudget)
		}
	}()
	texts := append([]string{c.Def}, c.In...)
	for _, o := range c.Ops {
		texts = append(texts, o.S, o.T)
	}
	left := 30000000 // in all
	seen := map[string]bool{}
	for _, s := range texts {
		if seen[s] {
			continue
		}
		seen[s] = true
		for _, r := range c.G.Rules {
			for at := range append([]rune(s), 0) {
				for _, flag := range []int{flagS, flagNS, flagN} {
					m := NewModel(c.G, s, min(100000, left))
					m.EvalRule(r.Name, at, flag)
					if left -= m.steps; left < 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- shared helpers

const modelBudget = 4000

func mustGrammar(x *Ctx, text string) *xbnf.Grammar {
	g, err := xbnf.NewGrammarFromString(text)
	if err != nil {
		x.Failf("valid definition rejected: %v\n%s", err, text)
	}
	if g == nil {
		x.Failf("nil grammar and nil error for\n%s", text)
	}
	return g
}

// end is how many chars an evaluation used
func endOf(x *Ctx, r *xbnf.EvalResult) int {
	n := len(r.CharsRead) - len(r.CharsUnused)
	if n < 0 {
		x.Failf("more chars unused (%d) than read (%d)", len(r.CharsUnused), len(r.CharsRead))
	}
	return n
}

// streamAt makes a stream whose first off chars have been read
func streamAt(text []rune, off int) xbnf.ICharstream {
	cs := xbnf.NewCharstreamFromString(string(text))
	for i := 0; i < off; i++ {
		cs.Next()
	}
	return cs
}

// compareEval compares an evaluation with what the model expects. mask 0 compares acceptance and the
// number of chars used only.
func compareEval(x *Ctx, what string, r *xbnf.EvalResult, w MRes, from int, text []rune, mask int) {
	if r == nil {
		x.Failf("%s: nil result", what)
	}
	if (r.Node != nil) != w.OK {
		x.Failf("%s: matched=%v, want %v (error: %v)", what, r.Node != nil, w.OK, r.Error)
	}
	if !w.OK {
		if r.Error == nil {
			x.Failf("%s: not matched, and no error", what)
		}
		if mask&mSticky != 0 && r.Sticky != w.Sticky {
			x.Failf("%s: result sticky %v, want %v", what, r.Sticky, w.Sticky)
		}
		return
	}
	if got, want := endOf(x, r), w.End-from; got != want {
		x.Failf("%s: %d chars used, want %d", what, got, want)
	}
	if mask&mSticky != 0 && r.Sticky != w.Sticky {
		x.Failf("%s: result sticky %v, want %v", what, r.Sticky, w.Sticky)
	}
	if d := diffTree(r.Node, w.Node, text, mask, "node"); d != "" {
		x.Failf("%s: %s\n got %s\nwant %s", what, d, dump(r.Node), wantDump(w.Node, text))
	}
}

func wantDump(w *MNode, text []rune) string {
	c := w.clone()
	c.walk(func(n *MNode) {
		if n.Off >= 0 {
			l, col := lineCol(text, n.Off)
			n.Off = l<<20 | col
		}
	})
	return dumpW(c)
}

// describe writes a case for people
func describe(c *Case) string {
	var b strings.Builder
	if c.Kind != "" {
		fmt.Fprintf(&b, "[%s] ", c.Kind)
	}
	if c.G != nil {
		b.WriteString("grammar: " + oneLine(c.G.Text(&Layout{d: c.L})))
	}
	if c.Def != "" {
		fmt.Fprintf(&b, " def: %q", c.Def)
	}
	if len(c.Raw) > 0 {
		fmt.Fprintf(&b, " raw: %q", c.Raw)
	}
	if c.Rule != "" {
		fmt.Fprintf(&b, " rule: %s", c.Rule)
	}
	if c.Flag != 0 {
		fmt.Fprintf(&b, " flag: %d", c.Flag)
	}
	if c.N != 0 || c.M != 0 {
		fmt.Fprintf(&b, " n=%d m=%d", c.N, c.M)
	}
	if len(c.In) > 0 {
		fmt.Fprintf(&b, " text: %q", c.In)
	}
	for _, o := range c.Ops {
		fmt.Fprintf(&b, " %s", o.K)
		if o.S != "" {
			fmt.Fprintf(&b, " %q", o.S)
		}
		if o.T != "" {
			fmt.Fprintf(&b, " %q", o.T)
		}
		if o.E != nil {
			fmt.Fprintf(&b, " %s", o.E.Print(nil))
		}
		if o.N != 0 || o.M != 0 {
			fmt.Fprintf(&b, " %d,%d", o.N, o.M)
		}
		b.WriteString(";")
	}
	for _, t := range c.Trees {
		b.WriteString(" " + dumpW(t))
	}
	return clip(b.String(), 1500)
}

func verifDir() string {
	if d := os.Getenv("XV_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("XV_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func corpusCases(prop string) []string {
	fs, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", prop, "*.json"))
	sort.Strings(fs)
	return fs
}

func loadCase(path string) (*Case, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return nil, err
	}
	if rf.Case == nil {
		return nil, fmt.Errorf("%s: no case", path)
	}
	return rf.Case, nil
}

type replayFile struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Describe string `json:"describe,omitempty"`
	Case     *Case  `json:"case"`
}
