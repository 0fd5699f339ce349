package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- hand-built trees

var leafTypes = []string{"char", "chars", "string", "range", "EOF", "option", "repetition", "text"}
var innerTypes = []string{"concatenate", "group", "choice", "repetition", "option", "block", "embed"}
var leafTexts = []string{"a", "bc", " ", "x y", "é", "\n", " lead", "trail\t", "0", "\U0001F600", "a\nb", "\u00a0"}
var treeNames = []string{"", "", "", "n", "key", "v2"}

type treeGen struct {
	t                          *rapid.T
	fuel                       int
	sticky, virt, non, tok     int // chances in 16
	names                      int // chance of a name, in 16
	consistent                 bool
	emptyChance, onlyChildOdds int
	big                        string
}

func newTreeGen(t *rapid.T) *treeGen {
	g := &treeGen{t: t, fuel: 4 + pick(t, 30)}
	g.sticky = []int{8, 12, 4, 15}[pick(t, 4)]
	g.virt = []int{0, 3, 1}[pick(t, 3)]
	g.non = []int{0, 3, 1}[pick(t, 3)]
	g.tok = []int{0, 2}[pick(t, 2)]
	g.names = []int{4, 8, 1}[pick(t, 3)]
	g.consistent = pick(t, 3) > 0
	g.emptyChance = []int{2, 5}[pick(t, 2)]
	g.onlyChildOdds = []int{4, 9}[pick(t, 2)]
	if pick(t, 12) == 11 {
		g.big = []string{"wide", "deep", "text", "at"}[pick(t, 4)]
		g.fuel = 60
	}
	return g
}

func (g *treeGen) node(depth int) *MNode {
	g.fuel--
	n := &MNode{Off: -1}
	if chance(g.t, g.names) {
		n.Name = treeNames[3+pick(g.t, 3)]
	}
	n.Virt, n.Non, n.Tok = chance(g.t, g.virt), chance(g.t, g.non), chance(g.t, g.tok)
	if pick(g.t, 12) > 0 {
		n.Off = (1+pick(g.t, 12))<<20 | (1 + pick(g.t, 12))
		if g.big == "at" {
			n.Off = (1+pick(g.t, 2000))<<20 | (1 + pick(g.t, 20000))
		}
	}
	if depth == 0 || g.fuel <= 0 || pick(g.t, 5) == 0 && g.big != "deep" {
		n.Sticky = chance(g.t, g.sticky)
		n.Type = leafTypes[pick(g.t, len(leafTypes))]
		switch {
		case n.Type == "EOF":
			n.Chars = []rune{-1}
		case n.Type == "option" || n.Type == "repetition" || chance(g.t, g.emptyChance):
			n.Chars = nil
		default:
			n.Chars = []rune(leafTexts[pick(g.t, len(leafTexts))])
			if g.big == "text" {
				for k := pick(g.t, 40); k > 0; k-- {
					n.Chars = append(n.Chars, []rune(leafTexts[pick(g.t, len(leafTexts))])...)
				}
			}
		}
		return n
	}
	n.Type = innerTypes[pick(g.t, len(innerTypes))]
	kids := 1
	if !chance(g.t, g.onlyChildOdds) {
		kids = 2 + pick(g.t, 4)
		if g.big == "wide" && pick(g.t, 2) == 0 {
			kids = 5 + pick(g.t, 60)
		}
	}
	all := true
	for i := 0; i < kids; i++ {
		k := g.node(depth - 1)
		all = all && k.Sticky
		n.Kids = append(n.Kids, k)
	}
	if g.consistent {
		n.Sticky = all
	} else {
		n.Sticky = chance(g.t, g.sticky)
	}
	return n
}

func drawTrees(t *rapid.T, max int) []*MNode {
	g := newTreeGen(t)
	var out []*MNode
	n := 1 + pick(t, max)
	if g.big == "wide" && max > 1 {
		n += pick(t, 30)
	}
	for ; n > 0; n-- {
		depth := 1 + pick(t, 5)
		if g.big == "deep" {
			depth = 10 + pick(t, 40)
		}
		out = append(out, g.node(depth))
	}
	return out
}

func toRealList(ws []*MNode) []*xbnf.Node {
	var out []*xbnf.Node
	for _, w := range ws {
		out = append(out, toReal(w))
	}
	return out
}

func fromRealList(ns []*xbnf.Node) []*MNode {
	var out []*MNode
	for _, n := range ns {
		out = append(out, fromReal(n))
	}
	return out
}

func dumpWs(ws []*MNode) string { return dumpNodes(toRealList(ws)) }

func listText(ns []*xbnf.Node) string {
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(string(n.Text()))
	}
	return b.String()
}

// drawTreeCase is a case of hand-built trees, or of a grammar and texts whose trees are used
func drawTreeCase(t *rapid.T, p Prof, max int) *Case {
	if pick(t, 2) == 0 {
		return &Case{Kind: "tree", Trees: drawTrees(t, max)}
	}
	p = drawProf(t, p)
	c := drawEval(t, p, 3)
	c.Kind = "grammar"
	return c
}

// rawTrees gives the raw trees of a case: hand-built, or the results of parses
func rawTrees(c *Case, x *Ctx) [][]*MNode {
	if c.Kind == "tree" {
		x.Class("hand-built tree")
		return [][]*MNode{c.Trees}
	}
	var out [][]*MNode
	g := mustGrammar(x, c.G.Text(nil))
	for _, s := range c.In {
		NewModel(c.G, s, modelBudget).EvalRule(c.Rule, 0, flagS) // budget
		NewModel(c.G, s, modelBudget).EvalRaw(c.G.roots())
		if r := g.EvalRule(c.Rule, s); r.Node != nil {
			out = append(out, []*MNode{fromReal(r.Node)})
			x.Class("tree of a rule")
		}
		if ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(s)); err == nil {
			out = append(out, fromRealList(ast.Nodes))
			x.Class("tree of a text")
		}
		if c.N == 1 {
			NewModel(c.G, s, 4*modelBudget).EvalEmbed(c.Rule) // budget
			if er := g.EvalEmbed(c.Rule, s); er.Node != nil {
				out = append(out, []*MNode{fromReal(er.Node)})
				x.Class("tree of an embedded evaluation")
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- C13 simplification

func init() {
	w := weights(map[string]int{"char": 8, "range": 6, "group": 4, "opt": 5, "rep": 5, "block": 3, "eof": 2})
	register(&Check{
		ID: "C13", Quick: 240000, Thorough: 5000000,
		Rule: "a case is a list of hand-built trees (random types, names, annotations, positions and stickiness; empty nodes, only children, blocks) or the trees of a random grammar's parses; merged, pruned, both, and each twice; non-trivial: the tree changes",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.Ann = w, 2
			return drawTreeCase(t, p, 5)
		},
		Run: runC13,
	})
}

// named lists the named nodes and their texts, in order
func named(ns []*xbnf.Node, out *[]string) {
	for _, n := range ns {
		if n.RuleName != "" {
			*out = append(*out, n.RuleName+":"+string(n.Text()))
		}
		named(n.ChildNodes, out)
	}
}

func anySticky(n *xbnf.Node) bool {
	if n.Sticky {
		return true
	}
	for _, k := range n.ChildNodes {
		if anySticky(k) {
			return true
		}
	}
	return false
}

func runC13(c *Case, x *Ctx) {
	for _, trees := range rawTrees(c, x) {
		start := dumpWs(trees)
		same := func(what, got string, want []*MNode) {
			if w := dumpWs(want); got != w {
				x.Failf("%s: the tree is\n%swant\n%sbefore it was\n%s", what, got, w, start)
			}
		}
		// merge
		real, model := toRealList(trees), cloneList(trees)
		text0 := listText(real)
		real = xbnf.MergeStickyNodes(real)
		model = mergeList(model)
		merged := dumpNodes(real)
		same("merge of a list", merged, model)
		x.NonTrivial(merged != start)
		x.ClassIf(merged != start, "merge changes the tree")
		if t := listText(real); t != text0 {
			x.Failf("merge changes the text from %q to %q, of\n%s", text0, t, start)
		}
		for _, n := range real {
			if anySticky(n) {
				x.Failf("there is a sticky node after the merge of\n%snow\n%s", start, merged)
			}
		}
		real = xbnf.MergeStickyNodes(real)
		if d := dumpNodes(real); d != merged {
			x.Failf("a second merge changes\n%sto\n%s", merged, d)
		}
		// merge of a whole tree, and of each node
		ast := &xbnf.AST{Filename: "f", Nodes: toRealList(trees)}
		ast.MergeStickyNodes()
		if d := dumpNodes(ast.Nodes); d != merged {
			x.Failf("merge of a tree:\n%sof a list:\n%s", d, merged)
		}
		for _, w := range trees {
			a, m := toReal(w), w.clone()
			before := string(a.Text())
			er := &xbnf.EvalResult{Node: a}
			er.MergeStickyNodes()
			mergeNode(m)
			same("merge of a node", dumpNodes([]*xbnf.Node{er.Node}), []*MNode{m})
			if t := string(a.Text()); t != before {
				x.Failf("merge changes the text of a node from %q to %q: %s", before, t, dumpW(w))
			}
			// prune a tree that isn't merged
			a, m = toReal(w), w.clone()
			a.RemoveRedundantNodes()
			redundant(m)
			same("pruning of a raw node", dumpNodes([]*xbnf.Node{a}), []*MNode{m})
		}
		// prune the merged tree
		start = merged
		var names, namesAfter []string
		named(ast.Nodes, &names)
		ast.RemoveRedundantNodes()
		for _, m := range model {
			if !m.Non {
				redundant(m)
			}
		}
		pruned := dumpNodes(ast.Nodes)
		same("pruning", pruned, model)
		x.NonTrivial(pruned != merged)
		x.ClassIf(pruned != merged, "pruning changes the tree")
		if t := listText(ast.Nodes); t != text0 {
			x.Failf("pruning changes the text from %q to %q, of\n%snow\n%s", text0, t, merged, pruned)
		}
		named(ast.Nodes, &namesAfter)
		if fmt.Sprintf("%q", names) != fmt.Sprintf("%q", namesAfter) {
			x.Failf("pruning changes the named nodes from %q to %q, of\n%snow\n%s", names, namesAfter, merged, pruned)
		}
		x.ClassIf(len(names) > 1, "several named nodes")
		ast.RemoveRedundantNodes()
		if d := dumpNodes(ast.Nodes); d != pruned {
			x.Failf("a second pruning changes\n%sto\n%s", pruned, d)
		}
		// node by node, with the non-data ones
		for i, w := range trees {
			a, m := toReal(w), w.clone()
			a.MergeStickyNodes()
			mergeNode(m)
			before := string(a.Text())
			a.RemoveRedundantNodes()
			redundant(m)
			start = dumpW(w)
			same(fmt.Sprintf("merge and pruning of node %d", i), dumpNodes([]*xbnf.Node{a}), []*MNode{m})
			if t := string(a.Text()); t != before {
				x.Failf("pruning changes the text of a node from %q to %q: %s", before, t, dumpW(w))
			}
		}
	}
}

// ---------------------------------------------------------------- C14 levels

func init() {
	w := weights(map[string]int{"ref": 8, "group": 4, "opt": 4, "rep": 5, "string": 8, "block": 3})
	register(&Check{
		ID: "C14", Quick: 240000, Thorough: 4000000,
		Rule: "a case is a grammar with many ~ and # annotations and 1-3 texts, parsed at each level, or a list of hand-built trees; non-trivial: the trees of two levels differ",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.Ann, p.Roots = w, 6, pick(t, 2) == 0
			p.Rules = 5
			c := drawTreeCase(t, p, 4)
			if c.Kind == "grammar" && pick(t, 2) == 0 {
				c.In = []string{}
				roots := c.G.roots()
				for n := 1 + pick(t, 3); n > 0; n-- {
					d := &deriver{g: c.G, t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space), fuel: 24, max: 400}
					for k := 1 + pick(t, 3); k > 0 && len(roots) > 0; k-- {
						d.derive(c.G.find(roots[pick(t, len(roots))]), false)
					}
					c.In = append(c.In, string(d.out))
				}
			}
			c.N = pick(t, 50)
			return c
		},
		Run: runC14,
	})
}

// keptLeaves are the texts of the leaves that are not in a dropped subtree
func keptLeaves(ns []*MNode, drop func(*MNode) bool) string {
	var b strings.Builder
	for _, n := range ns {
		if drop(n) {
			continue
		}
		if len(n.Kids) == 0 && !isEOFChars(n.Chars) {
			b.WriteString(string(n.Chars))
		}
		b.WriteString(keptLeaves(n.Kids, drop))
	}
	return b.String()
}

func noWS(s string) string {
	return strings.Map(func(r rune) rune {
		if wsp(r) {
			return -1
		}
		return r
	}, s)
}

func markedLeft(ns []*xbnf.Node, marked func(*xbnf.Node) bool) bool {
	for _, n := range ns {
		if marked(n) || markedLeft(n.ChildNodes, marked) {
			return true
		}
	}
	return false
}

var levelNames = map[int]string{xbnf.LevelRaw: "raw", xbnf.LevelBasic: "basic", xbnf.LevelNoVertual: "no-virtual", xbnf.LevelDataOnly: "data-only", 7: "7", -2: "-2"}

// checkDropped tells if the tree of a level has exactly the text that isn't annotated away
func checkDropped(x *Ctx, what string, nodes []*xbnf.Node, raw []*MNode, level int, known bool) {
	virt := func(n *MNode) bool { return n.Virt && level >= xbnf.LevelNoVertual }
	drop := func(n *MNode) bool { return virt(n) || (n.Non && level == xbnf.LevelDataOnly) }
	probe := mergeList(cloneList(raw))
	lost := false
	for _, n := range probe {
		n.walk(func(k *MNode) { lost = lost || k.mergedFlags })
	}
	if lost && !known {
		x.Class("annotated node merged (known finding)")
		return
	}
	want := noWS(keptLeaves(raw, drop))
	got := noWS(listText(nodes))
	if got != want {
		x.Failf("%s: the text left is %q, want %q, of\n%snow\n%s", what, got, want, dumpWs(raw), dumpNodes(nodes))
	}
	x.ClassIf(want != noWS(keptLeaves(raw, func(*MNode) bool { return false })), "text dropped")
}

func runC14(c *Case, x *Ctx) {
	if c.Kind == "tree" {
		for i := 0; i < 2; i++ {
			name, drop := "RemoveVirtualNodes", isVirtual
			if i == 1 {
				name, drop = "RemoveNonDataNodes", isNonData
			}
			ast := &xbnf.AST{Nodes: toRealList(c.Trees)}
			if i == 0 {
				ast.RemoveVirtualNodes()
			} else {
				ast.RemoveNonDataNodes()
			}
			want := filterList(cloneList(c.Trees), drop)
			before := dumpWs(c.Trees)
			if g, w := dumpNodes(ast.Nodes), dumpWs(want); g != w {
				x.Failf("%s of\n%sgives\n%swant\n%s", name, before, g, w)
			}
			x.NonTrivial(dumpWs(want) != before)
			x.ClassIf(dumpWs(want) != before, name+" changes the tree")
			for _, t := range c.Trees {
				n, m := toReal(t), t.clone()
				if i == 0 {
					n.RemoveVirtualNodes()
				} else {
					n.RemoveNonDataNodes()
				}
				m.Kids = filterList(m.Kids, drop)
				if g, w := dump(n), dumpW(m); g != w {
					x.Failf("%s of node\n%s\ngives\n%s\nwant\n%s", name, dumpW(t), g, w)
				}
			}
		}
		return
	}
	g := mustGrammar(x, c.G.Text(nil))
	for _, s := range c.In {
		NewModel(c.G, s, modelBudget).EvalRaw(c.G.roots())
		raw, err := g.EvalRaw(xbnf.NewCharstreamFromString(s))
		var rawM []*MNode
		if err == nil {
			rawM = fromRealList(raw.Nodes)
		}
		seen := map[string]bool{}
		for _, level := range []int{xbnf.LevelRaw, xbnf.LevelBasic, xbnf.LevelNoVertual, xbnf.LevelDataOnly, 7, -2} {
			what := fmt.Sprintf("Eval of %q at level %s", s, levelNames[level])
			ast, e := g.Eval(xbnf.NewCharstreamFromString(s), level)
			if (e == nil) != (err == nil) {
				x.Failf("%s: error %v, raw: %v", what, e, err)
			}
			if e != nil {
				if ast != nil {
					x.Failf("%s: a tree and an error", what)
				}
				continue
			}
			got := dumpNodes(ast.Nodes)
			seen[got] = true
			// against the model
			want := cloneList(rawM)
			simplify(&want, level)
			if w := dumpWs(want); got != w {
				x.Failf("%s: the tree is\n%swant\n%sraw\n%s", what, got, w, dumpWs(rawM))
			}
			// against the public stages
			st := &xbnf.AST{Nodes: toRealList(rawM)}
			if level != xbnf.LevelRaw {
				st.MergeStickyNodes()
				if level == xbnf.LevelNoVertual || level == xbnf.LevelDataOnly {
					st.RemoveVirtualNodes()
				}
				if level == xbnf.LevelDataOnly {
					st.RemoveNonDataNodes()
				}
				st.RemoveRedundantNodes()
			}
			if d := dumpNodes(st.Nodes); d != got {
				x.Failf("%s: the tree is\n%sby stages\n%s", what, got, d)
			}
			// no annotated node is left, nothing else is dropped
			if (level == xbnf.LevelNoVertual || level == xbnf.LevelDataOnly) && markedLeft(ast.Nodes, func(n *xbnf.Node) bool { return n.Virtual }) {
				x.Failf("%s: there is a virtual node in\n%s", what, got)
			}
			if level == xbnf.LevelDataOnly && markedLeft(ast.Nodes, func(n *xbnf.Node) bool { return n.NonData }) {
				x.Failf("%s: there is a non-data node in\n%s", what, got)
			}
			if level == 7 || level == -2 {
				level = xbnf.LevelBasic
			}
			checkDropped(x, what, ast.Nodes, rawM, level, c.N >= 100)
		}
		x.ClassIf(err == nil, "matched")
		x.NonTrivial(len(seen) > 1)
		x.ClassIf(len(seen) > 2, "three different trees or more")
	}
}

// ---------------------------------------------------------------- C15 text, counts, rendering

func init() {
	w := weights(map[string]int{"block": 4, "rep": 5, "opt": 4, "group": 3})
	register(&Check{
		ID: "C15", Quick: 80000, Thorough: 1500000,
		Rule: "a case is a list of hand-built trees or the trees of a random grammar's parses, raw and simplified; text, counts and renderings (all configurations) are compared; non-trivial: more than 3 nodes, and an inner node with text",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.Ann = w, 4
			c := drawTreeCase(t, p, 4)
			c.N, c.M = pick(t, 2), pick(t, 4)
			return c
		},
		Run: runC15,
	})
}

// render is the expected rendering of a node, as lines
func render(w *MNode, conf *xbnf.NodeTreeConfig) []string {
	typ, inner := true, false
	if conf != nil {
		typ, inner = conf.PrintRuleType, conf.PrintNonleafNodeText
	}
	pos := "L0:0"
	if w.Off >= 0 {
		pos = fmt.Sprintf("L%d:%d", w.Off>>20, w.Off&(1<<20-1))
	}
	head := pos + ":" + w.Name
	if typ {
		head += "/" + w.Type
	}
	for _, f := range []struct {
		on bool
		s  string
	}{{w.Tok, "$"}, {w.Non, "#"}, {w.Virt, "~"}, {w.Sticky, "+"}} {
		if f.on {
			head += f.s
		}
	}
	if len(w.Kids) == 0 || inner {
		head += ": >" + string(mText(w)) + "<"
	}
	lines := strings.Split(head, "\n")
	for i, k := range w.Kids {
		first, rest := "├──", "│  "
		if i == len(w.Kids)-1 {
			first, rest = "└──", "   "
		}
		lines = append(lines, indent(render(k, conf), first, rest)...)
	}
	return lines
}

func indent(lines []string, first, rest string) []string {
	out := make([]string, len(lines))
	for i, l := range lines {
		if i == 0 {
			out[i] = first + l
		} else {
			out[i] = rest + l
		}
	}
	return out
}

func renderAST(file string, ws []*MNode, conf *xbnf.NodeTreeConfig) string {
	lines := []string{"Abstract Syntax Tree", "├─ file:" + file}
	if len(ws) == 0 {
		lines = append(lines, "└─ Nodes: 0")
	} else {
		lines = append(lines, fmt.Sprintf("├─ Nodes: %d", len(ws)))
	}
	for i, w := range ws {
		if i == len(ws)-1 {
			lines = append(lines, indent(render(w, conf), "└───", "    ")...)
		} else {
			lines = append(lines, indent(render(w, conf), "├───", "│   ")...)
		}
	}
	return strings.Join(lines, "\n")
}

var treeConfigs = []*xbnf.NodeTreeConfig{
	nil,
	{PrintRuleType: true},
	{},
	{PrintRuleType: true, PrintNonleafNodeText: true},
	{PrintNonleafNodeText: true, VerboseNodeText: true},
}

// configsFor are the configurations of configs that render the trees in reasonable time: with much text or many nodes
// deep down, each level of which is put together anew, it takes long
func configsFor(ns []*xbnf.Node, configs []*xbnf.NodeTreeConfig) (some []*xbnf.NodeTreeConfig) {
	plain, inner := 0, 0
	var weigh func(n *xbnf.Node, depth int) int
	weigh = func(n *xbnf.Node, depth int) int {
		text := len(n.Chars)
		plain += (text + 20) * depth
		for _, k := range n.ChildNodes {
			text += weigh(k, depth+1)
		}
		inner += text * depth
		return text
	}
	for _, n := range ns {
		weigh(n, 1)
	}
	for _, conf := range configs {
		switch {
		case conf != nil && conf.PrintNonleafNodeText && inner > 3000000:
		case plain > 3000000 && len(some) > 0:
		default:
			some = append(some, conf)
		}
	}
	return some
}

func checkRender(x *Ctx, ns []*xbnf.Node) {
	treeConfigs := configsFor(ns, treeConfigs)
	own := xbnf.DefaultNodeTreeConfig()
	own.PrintRuleType, own.VerboseNodeText, own.PrintNonleafNodeText = false, true, true
	if d := xbnf.DefaultNodeTreeConfig(); !d.PrintRuleType || d.VerboseNodeText || d.PrintNonleafNodeText {
		x.Failf("the default configuration is %+v after another one was changed", *d)
	}
	x.ClassIf(len(treeConfigs) < 5, "very deep tree, not rendered with all inner texts")
	ws := fromRealList(ns)
	before := dumpNodes(ns)
	ast := &xbnf.AST{Filename: "a file", Nodes: ns}
	text, nodes, tokens, sticky, innerText := "", 0, 0, 0, false
	for i, w := range ws {
		t := string(mText(w))
		text += t
		n, k, s := 0, 0, 0
		w.walk(func(m *MNode) {
			n++
			if len(m.Kids) == 0 {
				k++
			} else if len(mText(m)) > 0 {
				innerText = true
			}
			if m.Sticky {
				s++
			}
		})
		nodes, tokens, sticky = nodes+n, tokens+k, sticky+s
		r := ns[i]
		if string(r.Text()) != t {
			x.Failf("the text of a node is %q, want %q: %s", string(r.Text()), t, dump(r))
		}
		if r.CountNodes() != n || r.CountTokens() != k || r.CountStickyNodes() != s {
			x.Failf("%d nodes, %d tokens, %d sticky, want %d, %d, %d: %s", r.CountNodes(), r.CountTokens(), r.CountStickyNodes(), n, k, s, dump(r))
		}
		for _, conf := range treeConfigs {
			if g, want := r.StringTree(conf), strings.Join(render(w, conf), "\n"); g != want {
				x.Failf("the rendering (%+v) is\n%s\nwant\n%s", conf, g, want)
			}
		}
		for i, conf := range treeConfigs {
			if i != 1 && i != 2 && n > 40 {
				continue
			}
			er := &xbnf.EvalResult{Node: r, CharsRead: []rune("re ad\n"), CharsUnused: []rune("\n")}
			want := append([]string{"EvalResult", "├───CharsRead[6]  :re ad", "*", "├───CharsUnused[1]:", "*"}, indent(render(w, conf), "└───Node: ", "    ")...)
			if g := er.StringTree(conf); g != strings.Join(want, "\n") {
				x.Failf("the rendering of a result is\n%s\nwant\n%s", g, strings.Join(want, "\n"))
			}
		}
	}
	x.NonTrivial(nodes > 3 && innerText)
	x.ClassIf(strings.Contains(text, " "), "text with a space")
	x.ClassIf(sticky > 0, "sticky nodes")
	if g := string(ast.Text()); g != text {
		x.Failf("the text of the tree is %q, want %q:\n%s", g, text, before)
	}
	if ast.CountNodes() != nodes || ast.CountTokens() != tokens || ast.CountStickyNodes() != sticky {
		x.Failf("%d nodes, %d tokens, %d sticky, want %d, %d, %d:\n%s", ast.CountNodes(), ast.CountTokens(), ast.CountStickyNodes(), nodes, tokens, sticky, before)
	}
	for _, conf := range treeConfigs {
		if g, want := ast.StringTree(conf), renderAST("a file", ws, conf); g != want {
			x.Failf("the rendering (%+v) is\n%s\nwant\n%s", conf, g, want)
		}
	}
	if d := dumpNodes(ns); d != before {
		x.Failf("rendering changes\n%sto\n%s", before, d)
	}
}

func runC15(c *Case, x *Ctx) {
	for _, trees := range rawTrees(c, x) {
		ast := &xbnf.AST{Nodes: toRealList(trees)}
		many := ast.CountNodes() > 600 // takes long, not all of it
		checkRender(x, ast.Nodes)
		for i, f := range []func(){ast.MergeStickyNodes, ast.RemoveVirtualNodes, ast.RemoveNonDataNodes, ast.RemoveRedundantNodes} {
			f()
			if i == c.M || i > c.M && !many {
				checkRender(x, ast.Nodes)
			}
		}
	}
	if c.Kind == "grammar" {
		// what is in the result of the code itself, not a copy of it
		g := mustGrammar(x, c.G.Text(nil))
		for _, s := range c.In {
			NewModel(c.G, s, modelBudget).EvalRule(c.Rule, 0, flagS) // budget
			r := g.EvalRule(c.Rule, s)
			if r.Node != nil {
				checkRender(x, []*xbnf.Node{r.Node})
			} else if want := fmt.Sprintf("EvalResult\n├───CharsRead[%d]  :%s*\n├───CharsUnused[%d]:%s*\n└───Node: nil; %s", len(r.CharsRead), string(r.CharsRead), len(r.CharsUnused), string(r.CharsUnused), r.Error); r.StringTree(nil) != want {
				x.Failf("the rendering of a failed result is\n%s\nwant\n%s", r.StringTree(nil), want)
			}
		}
	}
	var none *xbnf.AST
	var nobody *xbnf.Node
	if none.CountNodes() != 0 || none.CountTokens() != 0 || none.CountStickyNodes() != 0 || len(none.Text()) != 0 {
		x.Failf("counts or text of no tree")
	}
	none.MergeStickyNodes()
	if g := none.StringTree(nil); g != "nil AST" {
		x.Failf("the rendering of no tree is %q", g)
	}
	if g := (*xbnf.Position)(nil).String(); g != "L0:0" {
		x.Failf("no position is written %q", g)
	}
	if nobody.CountNodes() != 0 || nobody.CountTokens() != 0 || nobody.CountStickyNodes() != 0 {
		x.Failf("counts of no node")
	}
}
