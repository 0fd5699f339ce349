package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C17 concurrency (built with the race detector)

var concKinds = []string{"rule", "flag", "eval", "embed", "print", "string", "build", "tree", "record", "config", "own", "new"}

func init() {
	register(&Check{
		ID: "C17", Quick: 30000, Thorough: 600000,
		Rule:   "a case is (a) a grammar, 1-3 texts and 2-8 evaluations, prints and queries that 2-6 goroutines each run in another order on the same grammar, some on streams that yield at each char; each result is compared with that of a fresh grammar used alone; or (b) a stream shared by 2-6 goroutines each running a list of operations, every char of which must go to exactly one of them; run with the race detector; non-trivial: a goroutine gets a node, or two goroutines get chars",
		Draw:   drawC17,
		Run:    runC17,
		Assume: []string{"the race detector sees races of the schedules that happened; schedules are varied by yielding at random operations"},
	})
}

func drawC17(t *rapid.T) *Case {
	if pick(t, 3) == 0 {
		c := &Case{Kind: "stream", N: 2 + pick(t, 5), M: pick(t, 4)}
		size := 4 + pick(t, 60)
		var text []rune
		for i := 0; i < size; i++ {
			switch pick(t, 5) {
			case 0:
				text = append(text, rune(" \n\t"[pick(t, 3)]))
			default:
				text = append(text, rune(0x4E00+i))
			}
		}
		c.In = []string{string(text)}
		for n := 2 + pick(t, 12); n > 0; n-- {
			c.Ops = append(c.Ops, Op{K: []string{"next", "next", "next", "match", "skip", "peek", "position", "lookup", "cursor", "yield"}[pick(t, 10)], N: pick(t, size+1)})
		}
		return c
	}
	p := profBase()
	p.Ann, p.Roots = 3, pick(t, 2) == 0
	p.W = weights(map[string]int{"choice": 7, "block": 4, "ref": 8})
	p = drawProf(t, p)
	p.Depth = 2 + pick(t, 2)
	c := drawEval(t, p, 3)
	c.Kind = "grammar"
	c.N, c.M = 2+pick(t, 5), pick(t, 2)
	for n := 2 + pick(t, 7); n > 0; n-- {
		o := Op{K: concKinds[pick(t, len(concKinds))], N: pick(t, len(c.In)), M: pick(t, 8)}
		if o.K == "new" {
			o.M = pick(t, 1<<20)
		}
		o.S = c.G.Rules[pick(t, len(c.G.Rules))].Name
		c.Ops = append(c.Ops, o)
	}
	return c
}

// yieldStream lets other goroutines run in the middle of an evaluation
type yieldStream struct {
	xbnf.ICharstream
	n, every int
}

func (y *yieldStream) yield() {
	if y.n++; y.every > 0 && y.n%y.every == 0 {
		runtime.Gosched()
	}
}
func (y *yieldStream) Next() rune                    { y.yield(); return y.ICharstream.Next() }
func (y *yieldStream) Peek() rune                    { y.yield(); return y.ICharstream.Peek() }
func (y *yieldStream) Match(r []rune) ([]rune, bool) { y.yield(); return y.ICharstream.Match(r) }
func (y *yieldStream) SkipSpaces() []rune            { y.yield(); return y.ICharstream.SkipSpaces() }

func newYield(text string, every int) xbnf.ICharstream {
	return &yieldStream{ICharstream: xbnf.NewCharstreamFromString(text), every: every}
}

// concOp does one operation and writes down what can be observed of its result
func concOp(c *Case, o Op, g *xbnf.Grammar, shared *xbnf.AST, every int) (out string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case failPanic:
			out = r.msg
		default:
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	x := &Ctx{classes: map[string]int{}}
	text := c.In[o.N]
	switch o.K {
	case "rule":
		return resultString(g.EvalRule(o.S, text))
	case "flag":
		rule := g.GetRule(o.S)
		return resultString(rule.Eval(g, newYield(text, every), []int{flagS, flagNS, flagN}[o.M%3]))
	case "eval":
		ast, err := g.Eval(newYield(text, every), o.M%4-1)
		if err != nil {
			return fmt.Sprintf("error, tree %v", ast != nil)
		}
		return dumpNodes(ast.Nodes) + ast.StringTree(nil)
	case "embed":
		r := g.EvalEmbed(o.S, text)
		return dump(r.Node)
	case "print":
		full := strings.Split(g.Serialize(true), "\n")
		sort.Strings(full)
		return parseListing(x, g.Serialize(false)).String() + fmt.Sprint(len(full))
	case "string":
		r := g.GetRule(o.S)
		return r.String() + r.StringWithIndent(" ") + fmt.Sprint(r.IsVirtual(), r.IsNonData(), r.IsTokenized()) + r.Name()
	case "build":
		g2, err := xbnf.NewGrammarFromString(c.G.Text(nil))
		if err != nil {
			return err.Error()
		}
		return resultString(g2.EvalRule(o.S, text))
	case "new": // definitions never loaded before
		s := ""
		for k := uint32(0); k < 3; k++ {
			a := rune((uint32(o.M)*2654435761+k*40503)>>8) & 0x7fff
			def := fmt.Sprintf("n%d = \\u%04X | '\\u%04x'-\\u%04X > \"\\u%04x%d\" | { 'x' }<%d,>\n", a, a, a+1, a+9, a+0x30, a, a)
			if k == 2 {
				def += fmt.Sprintf("m%d = [ n%d n%[1]d\n", a, a)
			}
			g2, err := xbnf.NewGrammarFromString(def)
			if err != nil {
				s += err.Error()
				continue
			}
			rule := g2.GetRule(fmt.Sprintf("n%d", a))
			s += rule.String() + resultString(g2.EvalRule(rule.Name(), string([]rune{a, a + 1})))
		}
		return s
	case "tree":
		if shared == nil {
			return "no tree"
		}
		s := fmt.Sprint(shared.CountNodes(), shared.CountTokens(), shared.CountStickyNodes(), string(shared.Text()))
		for _, conf := range configsFor(shared.Nodes, treeConfigs[1:4]) {
			s += shared.StringTree(conf)
		}
		return s
	case "config":
		conf := xbnf.DefaultNodeTreeConfig()
		s := fmt.Sprint(conf.PrintRuleType, conf.VerboseNodeText, conf.PrintNonleafNodeText)
		conf.PrintRuleType, conf.VerboseNodeText, conf.PrintNonleafNodeText = o.M&1 == 0, o.M&2 == 0, o.M&4 != 0
		ast, err := g.Eval(newYield(text, every), 1)
		if err != nil {
			return s + "error"
		}
		for _, conf := range configsFor(ast.Nodes, []*xbnf.NodeTreeConfig{nil, conf}) {
			s += ast.StringTree(conf)
		}
		return s + fmt.Sprint(conf.PrintRuleType, conf.VerboseNodeText, conf.PrintNonleafNodeText)
	case "own":
		r := g.GetRule(o.S).Eval(g, newYield(text, every), flagS)
		s := resultString(r)
		if r.Node != nil {
			r.MergeStickyNodes()
			s += resultString(r)
			r.Node.RemoveVirtualNodes()
			s += resultString(r)
			r.Node.RemoveNonDataNodes()
			s += resultString(r)
		}
		return s
	case "record":
		a, b := g.GetRecord(o.S), g.GetRecord("no rule has this name")
		return fmt.Sprint(a != nil && a.Rule() == g.GetRule(o.S), b == nil)
	}
	return "?"
}

func runC17(c *Case, x *Ctx) {
	if c.Kind == "stream" {
		runSharedStream(c, x)
		return
	}
	for _, s := range c.In {
		NewModel(c.G, s, modelBudget).EvalRaw(c.G.roots())
		for _, r := range c.G.Rules {
			NewModel(c.G, s, modelBudget).EvalRule(r.Name, 0, flagS)
			NewModel(c.G, s, modelBudget*4).EvalEmbed(r.Name)
		}
	}
	def := c.G.Text(nil)
	tree := func(g *xbnf.Grammar) *xbnf.AST {
		ast, err := g.Eval(xbnf.NewCharstreamFromString(c.In[0]), c.N%4-1)
		if err != nil {
			return nil
		}
		return ast
	}
	// alone
	want := make([]string, len(c.Ops))
	alone := func() {
		for i, o := range c.Ops {
			g := mustGrammar(x, def)
			want[i] = concOp(c, o, g, tree(g), 0)
			x.NonTrivial(strings.Contains(want[i], "("))
			x.Class(o.K)
		}
	}
	before := c.M == 0
	if before {
		alone()
	}
	// together
	g, shared := mustGrammar(x, def), tree(mustGrammar(x, def))
	got := make([][]string, c.N)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < c.N; k++ {
		got[k] = make([]string, len(c.Ops))
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for i := range c.Ops {
				j := (i*(1+k%2) + k) % len(c.Ops)
				if k%2 == 1 && len(c.Ops)%2 == 0 {
					j = (k + len(c.Ops) - i) % len(c.Ops)
				}
				got[k][j] = concOp(c, c.Ops[j], g, shared, k%3)
			}
		}(k)
	}
	close(start)
	wg.Wait()
	if !before { // nothing is known yet of what is new when all run together
		alone()
	}
	for k := range got {
		for i := range c.Ops {
			if got[k][i] != want[i] {
				x.Failf("goroutine %d of %d, %s of rule %s on %q: %s\nalone: %s", k, c.N, c.Ops[i].K, c.Ops[i].S, c.In[c.Ops[i].N], got[k][i], want[i])
			}
		}
	}
	x.Class(fmt.Sprintf("%d goroutines", c.N))
}

func runSharedStream(c *Case, x *Ctx) {
	text := []rune(c.In[0])
	cs := xbnf.NewCharstreamFromString(c.In[0])
	layered := false
	if putBack != nil {
		for i := 0; i < c.M && 2*(i+1) <= len(text); i++ { // streams with chars put back
			layered = true
			var back []rune
			for k := 0; k < i+1; k++ {
				back = append(back, cs.Next())
			}
			cs = putBack(cs, back)
		}
	}
	x.ClassIf(layered, "shared put-back stream")
	x.ClassIf(!layered, "shared stream")
	taken := make([][]rune, c.N)
	bad := make([]string, c.N)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < c.N; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[k] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			for i := range c.Ops {
				o := c.Ops[(i+k)%len(c.Ops)]
				switch o.K {
				case "next":
					if r := cs.Next(); r != xbnf.EOFChar {
						taken[k] = append(taken[k], r)
					}
				case "match":
					r, _ := cs.Match(text[o.N%len(text) : min(o.N%len(text)+3, len(text))])
					taken[k] = append(taken[k], r...)
				case "skip":
					r := cs.SkipSpaces()
					for _, s := range r {
						if !wsp(s) {
							bad[k] = fmt.Sprintf("SkipSpaces returned %q", string(r))
						}
					}
					taken[k] = append(taken[k], r...)
				case "peek":
					cs.Peek()
				case "position":
					if p := cs.Position(); p != nil && !validPos(p, text) {
						bad[k] = "position " + p.String()
					}
				case "lookup":
					if p := cs.PositionLookup(o.N); p != nil {
						if l, col := lineCol(text, o.N); p.Line != l || p.Col != col {
							bad[k] = fmt.Sprintf("position of char %d: %s", o.N, p)
						}
					}
				case "cursor":
					if n := cs.Cursor(); n < 0 || n > len(text) {
						bad[k] = fmt.Sprintf("cursor %d", n)
					}
				case "yield":
					runtime.Gosched()
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	var rest []rune
	for r := cs.Next(); r != xbnf.EOFChar; r = cs.Next() {
		rest = append(rest, r)
	}
	all := append([]rune{}, rest...)
	withChars := 0
	for k := range taken {
		if bad[k] != "" {
			x.Failf("goroutine %d: %s", k, bad[k])
		}
		if len(taken[k]) > 0 {
			withChars++
		}
		all = append(all, taken[k]...)
		last := rune(0)
		for _, r := range taken[k] {
			if wsp(r) {
				continue
			}
			if r <= last {
				x.Failf("goroutine %d got %q, out of order", k, string(taken[k]))
			}
			last = r
		}
	}
	x.NonTrivial(withChars > 1)
	x.ClassIf(withChars > 1, "chars taken by several goroutines")
	if !strings.HasSuffix(string(text), string(rest)) {
		x.Failf("the chars left are %q", string(rest))
	}
	want := append([]rune{}, text...)
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	if string(all) != string(want) {
		x.Failf("the chars handed out are %q, want those of %q", string(all), c.In[0])
	}
}

func validPos(p *xbnf.Position, text []rune) bool {
	for i := range text {
		if l, c := lineCol(text, i); l == p.Line && c == p.Col {
			return true
		}
	}
	return false
}
