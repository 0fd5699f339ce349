package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C24 outlines

func init() {
	register(&Check{
		ID: "C24", Quick: 200000, Thorough: 2500000,
		Rule: "a case is a grammar of all kinds of rules, and an indent; the outline of each rule is parsed and compared with its definition, part by part; non-trivial: some rule has a container in a container",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.Ann, p.WideRep = 4, true
			p.W = weights(map[string]int{"block": 4, "group": 4})
			p = drawProf(t, p)
			c := &Case{G: drawGram(t, p), N: 1 + pick(t, 6)}
			if pick(t, 4) == 0 {
				c.M = 1 // with tabs
			}
			return c
		},
		Run: runC24,
	})
}

type outlineLine struct {
	depth int // width of the indent
	text  string
}

func outlineOf(s string) []outlineLine {
	var out []outlineLine
	for _, l := range strings.Split(s, "\n") {
		body := strings.TrimLeft(l, " \t")
		out = append(out, outlineLine{len(l) - len(body), body})
	}
	return out
}

var containerWord = map[string]string{"cat": "concatenate", "choice": "choice", "group": "group", "opt": "option", "rep": "repetition"}

// the counts of a repetition, as its outline has them
var outlineCount = regexp.MustCompile(`^repetition *(\+|\*|<(\d*)(,?)(\d*)>)? *:?$`)

func checkOutline(x *Ctx, what string, lines []outlineLine, e *Expr, leafDef func(*Expr) string) []outlineLine {
	if len(lines) == 0 {
		x.Failf("%s: there is no line for %s", what, e.Print(nil))
	}
	l := lines[0]
	lines = lines[1:]
	word := containerWord[e.K]
	if word == "" {
		def := leafDef(e)
		if !strings.HasSuffix(l.text, def) {
			x.Failf("%s: the line %q isn't that of %s", what, l.text, def)
		}
		return lines
	}
	if !strings.HasPrefix(l.text, word) {
		x.Failf("%s: the line %q isn't that of a %s: %s", what, l.text, word, e.Print(nil))
	}
	if e.K == "rep" {
		m := outlineCount.FindStringSubmatch(l.text)
		if m == nil {
			x.Failf("%s: the line %q has no counts", what, l.text)
		}
		min, max := 0, 0
		if m[1] == "+" {
			min = 1
		} else {
			min, _ = strconv.Atoi(m[2])
			max, _ = strconv.Atoi(m[4])
		}
		if min != e.Min || max != e.Max {
			x.Failf("%s: the line %q has the counts %d,%d, want %d,%d", what, l.text, min, max, e.Min, e.Max)
		}
	}
	depth := -1
	part := func(k *Expr) {
		if len(lines) > 0 {
			d := lines[0].depth
			if d <= l.depth {
				x.Failf("%s: the line %q isn't inside of %q", what, lines[0].text, l.text)
			}
			if depth >= 0 && d != depth {
				x.Failf("%s: the line %q is indented by %d, parts before it by %d", what, lines[0].text, d, depth)
			}
			depth = d
		}
		lines = checkOutline(x, what, lines, k, leafDef)
	}
	e.children(part)
	return lines
}

func runC24(c *Case, x *Ctx) {
	g := mustGrammar(x, c.G.Text(nil))
	leafs := xbnf.NewGrammar()
	n := 0
	leafDef := func(e *Expr) string {
		if e.K == "eof" {
			return "EOF"
		}
		n++
		r, err := leafs.ParseRule(fmt.Sprintf("leaf%d", n), e.Print(nil))
		if err != nil {
			x.Failf("a part of a definition is rejected: %s: %v", e.Print(nil), err)
		}
		return r.String()
	}
	indent := strings.Repeat(" ", c.N)
	if c.M == 1 {
		indent = strings.Repeat("\t", c.N)
	}
	full := strings.Split(g.Serialize(true), "\n")
	for _, r := range c.G.Rules {
		what := fmt.Sprintf("outline of %s = %s", r.Name, r.E.Print(nil))
		r.E.walk(func(e *Expr) {
			if containerWord[e.K] != "" {
				e.children(func(k *Expr) { x.NonTrivial(containerWord[k.K] != "") })
			}
		})
		x.Class("rule of kind " + r.E.K)
		got := outlineOf(g.GetRule(r.Name).StringWithIndent(indent))
		if rest := checkOutline(x, what, got, r.E, leafDef); len(rest) > 0 {
			x.Failf("%s: the lines %v are of no part", what, rest)
		}
		// the same in the detailed listing of the grammar
		at := -1
		def := g.GetRule(r.Name).String()
		for i, l := range full {
			if f := strings.Fields(l); len(f) > 2 && strings.HasSuffix(l, "= "+def) && strings.TrimPrefix(strings.TrimSuffix(f[1], "[T]"), "!") == r.Name {
				if at >= 0 {
					x.Failf("the detailed listing has rule %s twice", r.Name)
				}
				at = i
			}
		}
		if at < 0 {
			x.Failf("the detailed listing has no rule %s:\n%s", r.Name, strings.Join(full, "\n"))
		}
		if at+1+len(got) > len(full) {
			x.Failf("the detailed listing ends within rule %s", r.Name)
		}
		in := outlineOf(strings.Join(full[at+1:at+1+len(got)], "\n"))
		if rest := checkOutline(x, "listed "+what, in, r.E, leafDef); len(rest) > 0 {
			x.Failf("%s: the listed lines %v are of no part", what, rest)
		}
	}
}

// ---------------------------------------------------------------- C25 a result depends on nothing else

func init() {
	w := weights(map[string]int{"choice": 6, "rep": 5, "cat": 8, "block": 4, "opt": 4, "ref": 8})
	register(&Check{
		ID: "C25", Quick: 300000, Thorough: 4000000,
		Rule: "a case is a grammar, 1-3 texts and what to change: names, the order of definitions, other rules added, a text in front, another text after the chars read; non-trivial: the rule uses another one and there is text after what was read",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.Ann, p.Rules = w, 2, 5
			p = drawProf(t, p)
			c := drawEval(t, p, 3)
			c.L2 = drawLayout(t, 24)
			d := &deriver{g: c.G, t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space), max: 400}
			for n := pick(t, 12); n > 0; n-- {
				d.out = append(d.out, d.any())
			}
			c.Def = string(d.out) // goes in front, and follows
			c.N = pick(t, 1+len(d.out))
			if pick(t, 250) == 249 { // far from the start of the text
				c.M = []int{255, 4096, 65535, 66000}[pick(t, 4)] + pick(t, 4)
			}
			return c
		},
		Run: runC25,
	})
}

// otherNames gives each rule another name
func otherNames(g *Gram, l *Layout) (out *Gram, back map[string]string) {
	back = map[string]string{}
	to := map[string]string{}
	used := map[string]bool{}
	var names []string
	for _, r := range g.Rules {
		names = append(names, r.Name)
	}
	swap := l.pick(3) == 0 // names change their places
	for i, r := range g.Rules {
		n := names[(i+1)%len(names)]
		if !swap {
			n = []string{"q", "Zz_", "name", "a", "E"}[l.pick(5)]
			for used[n] || n == "EOF" {
				n += string("abO_F9"[l.pick(6)])
			}
		}
		used[n] = true
		to[r.Name], back[n] = n, r.Name
	}
	out = g.clone()
	out.walk(func(e *Expr) {
		if e.K == "ref" {
			e.T = to[e.T]
		}
	})
	for i := range out.Rules {
		out.Rules[i].Name = to[out.Rules[i].Name]
	}
	return out, back
}

// nodeString is dump without positions, with the names of the rules given back
func nodeString(n *xbnf.Node, back map[string]string) string {
	if n == nil {
		return "nil"
	}
	w := fromReal(n)
	w.walk(func(k *MNode) {
		k.Off = -1
		if b, ok := back[k.Name]; ok && k.Type != "EOF" {
			k.Name = b
		}
	})
	return dumpW(w)
}

func localString(r *xbnf.EvalResult, at int, back map[string]string) string {
	s := fmt.Sprintf("%s sticky=%v read=%q unused=%q", nodeString(r.Node, back), r.Sticky, string(r.CharsRead), string(r.CharsUnused))
	if r.Node == nil {
		s += fmt.Sprintf(" error at %d", r.ErrIdx-at)
	}
	return s
}

func runC25(c *Case, x *Ctx) {
	l := &Layout{d: c.L2}
	g := mustGrammar(x, c.G.Text(nil))
	uses := len(refNames(c.G.find(c.Rule))) > 0
	x.ClassIf(uses, "uses other rules")

	renamed, back := otherNames(c.G, l)
	g2 := mustGrammar(x, renamed.Text(nil))
	rule2 := ""
	for n, b := range back {
		if b == c.Rule {
			rule2 = n
		}
	}

	// other rules, which use the ones that are there, amid of them
	more := c.G.clone()
	n := 1 + l.pick(3)
	if l.pick(40) == 39 { // very many
		n = []int{60, 100, 128, 200, 256, 300}[l.pick(6)] + l.pick(4)
		x.Class("very many other rules")
	}
	for ; n > 0; n-- {
		of := c.G.Rules[l.pick(len(c.G.Rules))]
		var e *Expr
		switch l.pick(5) {
		case 0:
			e = of.E.clone()
		case 1:
			e = &Expr{K: "ref", T: of.Name, Ann: []string{"", "~", "#", "$"}[l.pick(4)]}
		case 2:
			e = &Expr{K: "opt", Kids: []*Expr{of.E.clone()}}
		case 3:
			e = &Expr{K: "cat", Kids: []*Expr{wrap(of.E.clone()), {K: "ref", T: c.Rule}}}
		case 4:
			e = &Expr{K: "choice", Groups: [][]*Expr{{{K: "ref", T: of.Name}, {K: "string", T: "x"}}}}
		}
		if e.K != "cat" && e.K != "choice" && e.K != "ref" {
			e.Ann = []string{"", "~", "#"}[l.pick(3)]
		}
		at := l.pick(len(more.Rules) + 1)
		rest := append([]Rule{{fmt.Sprintf("other%d", n), e}}, more.Rules[at:]...)
		more.Rules = append(more.Rules[:at:at], rest...)
	}
	for i := len(more.Rules) - 1; i > 0; i-- {
		j := l.pick(i + 1)
		more.Rules[i], more.Rules[j] = more.Rules[j], more.Rules[i]
	}
	g3 := mustGrammar(x, more.Text(nil))

	for _, text := range c.In {
		NewModel(c.G, text, modelBudget).EvalRule(c.Rule, 0, flagS) // budget
		in := []rune(text)
		r := g.EvalRule(c.Rule, text)
		want := localString(r, 0, nil)
		x.ClassIf(r.Node != nil, "matched")
		if got := localString(g2.EvalRule(rule2, text), 0, back); got != want {
			x.Failf("rule %s on %q: %s\nwith other names (%s): %s", c.Rule, text, want, oneLine(renamed.Text(nil)), got)
		}
		if got := localString(g3.EvalRule(c.Rule, text), 0, nil); got != want {
			x.Failf("rule %s on %q: %s\namid other rules (%s): %s", c.Rule, text, want, oneLine(more.Text(nil)), got)
		}

		// a stream of the caller's own, which gives the same chars
		if len(in) <= 600 {
			own := &listStream{text: in}
			if got := resultString(g.GetRecord(c.Rule).Rule().Eval(g, own, flagS)); got != resultString(r) {
				x.Failf("rule %s on %q: %s\nfrom another stream: %s", c.Rule, text, resultString(r), got)
			}
			if own.cur != len(r.CharsRead) {
				x.Failf("rule %s on %q: %d chars read, but %d taken from the stream", c.Rule, text, len(r.CharsRead), own.cur)
			}
			if l.pick(4) == 3 && len(c.G.roots()) == 1 {
				NewModel(c.G, text, modelBudget).EvalRaw(c.G.roots()) // budget
				a, errA := g.EvalRaw(xbnf.NewCharstreamFromString(text))
				b, errB := g.EvalRaw(&listStream{text: in})
				if fmt.Sprint(errA) != fmt.Sprint(errB) || errA == nil && dumpNodes(a.Nodes) != dumpNodes(b.Nodes) {
					x.Failf("the whole text %q: %v\nfrom another stream: %v", text, errA, errB)
				}
				x.ClassIf(errA == nil, "whole text from another stream")
			}
		}

		// other text in front, taken already
		before := c.Def
		if c.M > 0 {
			before += strings.Repeat("\n", c.M/2) + strings.Repeat("a", c.M-c.M/2)
		}
		front := []rune(before)
		cs := xbnf.NewCharstreamFromString(before + text)
		for range front {
			cs.Next()
		}
		at := g.GetRecord(c.Rule).Rule().Eval(g, cs, flagS)
		if got := localString(at, len(front), nil); got != want {
			x.Failf("rule %s on %q: %s\nwith %q and %d more chars in front of it: %s", c.Rule, text, want, c.Def, c.M, got)
		}
		x.ClassIf(c.M > 0, "far from the start of the text")
		x.ClassIf(len(front) > 0, "after other text")

		// another text after the chars read and the one next to them, which was looked at perhaps
		known := len(r.CharsRead) + 1
		if known > len(in) {
			continue
		}
		x.NonTrivial(uses)
		x.Class("text left")
		other := string(in[:known]) + string([]rune(c.Def)[c.N:])
		r2 := g.EvalRule(c.Rule, other)
		if got := resultString(r2); got != resultString(r) {
			x.Failf("rule %s on %q, of which %d chars are read: %s\non %q: %s", c.Rule, text, len(r.CharsRead), resultString(r), other, got)
		}
		if r.Node == nil && (fmt.Sprint(r.Error) != fmt.Sprint(r2.Error) || r.ErrIdx != r2.ErrIdx) {
			x.Failf("rule %s on %q fails at %d: %v\non %q at %d: %v", c.Rule, text, r.ErrIdx, r.Error, other, r2.ErrIdx, r2.Error)
		}
	}
}
