package main

import (
	"fmt"
	"strings"
	"sync"
	"unicode"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C20 notation and layout

func init() {
	register(&Check{
		ID: "C20", Quick: 250000, Thorough: 4000000,
		Rule: "a case is a grammar of all kinds of rules written in two random notations (spacing, blank lines, comments, escapes, counts, order of annotations, with and without a last newline, CR LF, or as definitions of several lines added one by one), with 1-3 texts; both must be accepted, behave alike, and as the model; once, every BMP char is written as char, in quotes, as an escape and as a range and must match itself only; non-trivial: both notations differ and a text matches",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.Ann, p.WideRep = 4, true
			p.W = weights(map[string]int{"range": 5, "rep": 6, "block": 5, "group": 4, "opt": 4})
			p = drawProf(t, p)
			switch pick(t, 4) {
			case 0:
				p.Alpha = alphaCtl
			case 1:
				p.Alpha = alphaSym
			}
			c := drawEval(t, p, 3)
			c.L = drawLayout(t, 60)
			c.L2 = drawLayout(t, 60)
			c.N = pick(t, 32)
			return c
		},
		Run: runC20,
		Once: func(x *Ctx) {
			everyChar(x)
			countForms(x)
			longDefinitions(x)
		},
		OnceN: 65536 - 2048 + 0x100000/13 + 4*6 + 27*27,
	})
}

// ending varies what ends the lines of a definition
func ending(text string, n int) string {
	if n&1 != 0 {
		text = strings.TrimSuffix(text, "\n")
	}
	if n&2 != 0 {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	return text
}

func runC20(c *Case, x *Ctx) {
	for _, s := range c.In {
		NewModel(c.G, s, modelBudget).EvalRule(c.Rule, 0, flagS)
	}
	ta, tb := ending(c.G.Text(&Layout{d: c.L}), c.N), ending(c.G.Text(&Layout{d: c.L2}), c.N>>2)
	a, b := mustGrammar(x, ta), (*xbnf.Grammar)(nil)
	if c.N&16 != 0 { // rules added one by one, a definition may then have several lines
		defs := c.G.Defs(&Layout{d: c.L2})
		tb = strings.Join(defs, "\n----\n")
		b = xbnf.NewGrammar()
		for _, d := range defs {
			if _, err := b.AddRule(d); err != nil {
				x.Failf("valid definition rejected: %v\n%s", err, d)
			}
		}
		if err := b.Validate(); err != nil {
			x.Failf("valid definitions rejected: %v\n%s", err, tb)
		}
		x.Class("added one by one")
		x.ClassIf(strings.Contains(tb, "//"), "with comments inside")
	} else {
		b = mustGrammar(x, tb)
	}
	x.ClassIf(ta != tb, "notations differ")
	la, lb := parseListing(x, a.Serialize(false)), parseListing(x, b.Serialize(false))
	if fmt.Sprint(la.names) != fmt.Sprint(lb.names) || fmt.Sprint(la.roots, la.refs) != fmt.Sprint(lb.roots, lb.refs) {
		x.Failf("the grammars differ:\n%s\n%s\nas loaded from\n%s\n%s", la, lb, ta, tb)
	}
	for _, s := range c.In {
		for _, r := range c.G.Rules {
			for _, flag := range []int{flagS, flagN} {
				if flag == flagN && r.Name != c.Rule {
					continue
				}
				m := NewModel(c.G, s, modelBudget)
				w := m.EvalRule(r.Name, 0, flag)
				ra, rb := a.GetRule(r.Name).Eval(a, xbnf.NewCharstreamFromString(s), flag), b.GetRule(r.Name).Eval(b, xbnf.NewCharstreamFromString(s), flag)
				what := fmt.Sprintf("rule %s on %q (flag %d)", r.Name, s, flag)
				if da, db := resultString(ra), resultString(rb); da != db {
					x.Failf("%s: %s\nin another notation: %s\nas loaded from\n%s\n%s", what, da, db, ta, tb)
				}
				x.ClassIf(w.OK, "matched")
				x.NonTrivial(w.OK && ta != tb)
				compareEval(x, what+"\nas loaded from\n"+ta+"\n", ra, w, 0, m.in, mShape|mName|mFlags)
			}
		}
	}
}

// everyChar writes each char of the BMP in each notation
func everyChar(x *Ctx) {
	for ch := rune(0); ch <= 0xFFFF; ch++ {
		if ch >= 0xD800 && ch <= 0xDFFF {
			continue
		}
		one := string(ch)
		tick()
		defs := [][2]string{
			{fmt.Sprintf("r = \\u%04X", ch), one}, {fmt.Sprintf("r = '\\u%04x'", ch), one}, {fmt.Sprintf("r = \"\\u%04X\"", ch), one},
			{fmt.Sprintf("r = '\\u%04x\\u%04X'", ch, ch), one + one}, {fmt.Sprintf("r = \\u%04x-'\\u%04X'", ch, ch), one}, {fmt.Sprintf("r = { '\\u%04x'-\\u%04X }<1,1>", ch, ch), one},
		}
		if ch != '\n' && ch != '\r' {
			if ch != '\'' && ch != '\\' {
				defs = append(defs, [2]string{"r = '" + one + "'", one}, [2]string{"r = '" + one + "'-'" + one + "'", one})
			}
			if ch != '"' && ch != '\\' {
				defs = append(defs, [2]string{"r = \"" + one + "\"", one})
			}
			if ch != 'u' {
				defs = append(defs, [2]string{"r = '\\" + one + "'", one}, [2]string{"r = \"\\" + one + "\"", one}, [2]string{"r = '\\" + one + "'-'\\" + one + "'", one})
			}
		}
		// all of them where it may matter, else one after another
		for i, dt := range defs {
			if ch > 0x3100 && i != int(ch)%len(defs) {
				continue
			}
			d, text := dt[0], dt[1]
			g, err := xbnf.NewGrammarFromString(d)
			if err != nil {
				x.Failf("valid definition rejected: %v\n%q", err, d)
			}
			r := g.EvalRule("r", text+"!")
			if r.Node == nil || string(r.Node.Text()) != text || endOf(x, r) != len([]rune(text)) {
				x.Failf("%q doesn't match %q: %s", d, text, resultString(r))
			}
			other := string(ch + 1)
			if ch == 0xD7FF || ch == 0xFFFF {
				other = "a"
			}
			if wsp(ch + 1) {
				other = "Z"
			}
			if r := g.EvalRule("r", other+other); r.Node != nil {
				x.Failf("%q matches %q: %s", d, other, resultString(r))
			}
		}
	}
	x.Class("every BMP char")
	for ch := rune(0x10000); ch <= unicode.MaxRune; ch += 13 { // chars above are written as they are
		tick()
		def := fmt.Sprintf([]string{"r = '%c'", "r = '%c'-'%[1]c'", "r = \"%c\"", "r = '\\%c'", "r = { '%c'-'%[1]c' }<1,1>", "r = 'a%c' // %[1]c"}[int(ch)%6], ch)
		text := string(ch)
		if strings.Contains(def, "a") {
			text = "a" + text
		}
		g, err := xbnf.NewGrammarFromString(def)
		if err != nil {
			x.Failf("valid definition rejected: %v\n%q", err, def)
		}
		r := g.EvalRule("r", text+"!")
		if r.Node == nil || string(r.Node.Text()) != text || endOf(x, r) != len([]rune(text)) {
			x.Failf("%q doesn't match %q: %s", def, text, resultString(r))
		}
		for _, other := range []rune{ch ^ 1, ch & 0xffff, ch ^ 0x10000} {
			if r := g.EvalRule("r", strings.Replace(text, string(ch), string(other), 1)); r.Node != nil && !wsp(other) {
				x.Failf("%q matches %q: %s", def, string(other), resultString(r))
			}
		}
	}
	x.Class("chars over the BMP")
}

// countForms writes counts in each way
func countForms(x *Ctx) {
	ns := []int{63, 64, 65, 99, 100, 101, 127, 255, 256}
	for i := 0; i <= 17; i++ {
		ns = append(ns, i)
	}
	spaced := func(s string) string { return strings.NewReplacer("<", "< ", ",", "\t,  ", ">", "\u00a0>").Replace(s) }
	for _, min := range ns {
		for _, max := range ns {
			if max > 0 && max < min {
				continue
			}
			tick()
			forms := []string{"<%d,%d>", "<0%d,%d>", "<%d,0%d>", "<00%d,0000%d>", "<000000000000%d,00000000000000000000%d>"}
			var specs []string
			for _, f := range forms {
				specs = append(specs, fmt.Sprintf(f, min, max))
			}
			if max == 0 {
				for _, f := range []string{"<%d>", "<%d,>", "<0%d>", "<000%d,>"} {
					specs = append(specs, fmt.Sprintf(f, min))
				}
			}
			if min == 0 {
				for _, f := range []string{"<,%d>", "<,0%d>"} {
					specs = append(specs, fmt.Sprintf(f, max))
				}
			}
			for i, s := range specs {
				if (min+max)%3 == i%3 {
					s = spaced(s)
				}
				def := "r = { 'a' }" + s
				g, err := xbnf.NewGrammarFromString(def)
				if err != nil {
					x.Failf("valid definition rejected: %v\n%q", err, def)
				}
				for _, n := range []int{min - 1, min, min + 1, max - 1, max, max + 1} {
					if n < 0 {
						continue
					}
					r := g.EvalRule("r", strings.Repeat("a", n))
					ok, end := n >= min, n
					if max > 0 && end > max {
						end = max
					}
					if (r.Node != nil) != ok || ok && endOf(x, r) != end {
						x.Failf("%q on %d a: %s", def, n, resultString(r))
					}
				}
			}
		}
	}
	x.Class("counts in every form")
}

// longDefinitions has definitions with one long line, and of very many lines
func longDefinitions(x *Ctx) {
	for _, n := range []int{1000, 4200, 66000, 1100000} {
		word := func(i int) string { return fmt.Sprintf("w%dx", i) }
		last := n / 10
		var alts, rules []string
		for i := 0; i <= last; i++ {
			alts = append(alts, "'"+word(i)+"'")
			rules = append(rules, fmt.Sprintf("k%d = '%s' last", i, word(i)))
		}
		long := strings.Repeat("ab1 ", n/4)
		for i, d := range []struct{ def, text string }{
			{"r = " + strings.Join(alts, " | ") + "\n", word(last)},
			{"r = [ " + strings.Join(alts, " ] [ ") + " ]\n", word(0) + word(last)},
			{"r = '" + long + "'\n", long},
			{"r = " + strings.Repeat(" \t ", n/3) + "'a'\n", "a"},
			{"r = 'a'\n// " + long + "\n", "a"},
			{"r = k0 " + "\n" + strings.Join(rules, "\n") + "\n", word(0) + "z"},
		} {
			tick()
			g := mustGrammar(x, d.def+"last = 'z'\n")
			texts := map[string]string{"last": "z", "r": d.text}
			if i == 5 {
				texts[fmt.Sprintf("k%d", last)] = word(last) + "z"
			}
			for rule, text := range texts {
				if g.GetRule(rule) == nil {
					x.Failf("a definition of %d chars, kind %d: rule %s is missing", len(d.def), i, rule)
				}
				r := g.EvalRule(rule, text)
				if r.Node == nil || endOf(x, r) != len(text) || string(r.Node.Text()) != text {
					x.Failf("a definition of %d chars, kind %d: rule %s doesn't match its text: %v", len(d.def), i, rule, r.Error)
				}
			}
			if want := map[bool]int{true: last + 3, false: 2}[i == 5]; strings.Count(g.Serialize(true), "=") < want {
				x.Failf("a definition of %d chars, kind %d: fewer than %d rules", len(d.def), i, want)
			}
		}
	}
	x.Class("long definitions")
}

// ---------------------------------------------------------------- C21 purity

var pureOps = []string{"rule", "rule", "cont", "cont", "cont", "whole", "level", "embed", "print", "undef", "simp", "simp", "simp", "string", "count", "restart", "badrule"}

func init() {
	register(&Check{
		ID: "C21", Quick: 150000, Thorough: 1500000,
		Rule: "a case is a grammar, 1-3 texts and a history of 4-16 operations on one grammar and one stream: evaluating rules and whole texts, going on from where the last evaluation of the stream ended, simplifying one of the results, printing, failing (in a quarter of the cases the rules were added one by one, with evaluations in between); after each, all other results so far and the printed grammar are as they were, and in the end each evaluation is repeated on the same grammar and on a fresh one; non-trivial: a result with a node is there while another one is simplified or the stream is read on",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.Ann, p.WSText, p.EmptyStr = 3, 2, 1
			p.W = weights(map[string]int{"choice": 7, "rep": 6, "ref": 8})
			p = drawProf(t, p)
			if pick(t, 3) == 0 { // text with much whitespace in it
				p.WSText, p.Space = 6, " \n"
			}
			near := pick(t, 3) == 0
			if near { // texts that differ in few chars only, taken by terminals of several chars
				p.W = weights(map[string]int{"chars": 12, "string": 8, "cat": 9, "block": 1, "choice": 5})
				p.Top, p.Space = []string{"", "cat"}[pick(t, 2)], " "
				if pick(t, 3) == 2 {
					p.Big, p.W["range"] = "words", 12
				}
			}
			c := drawEval(t, p, 3)
			c.In[0] += drawText(t, c.G, c.G.find(c.Rule), p)
			if near {
				d := &deriver{t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space), out: []rune(c.In[0]), max: 400}
				d.mutate()
				c.In = append(c.In, string(d.out))
				if in := []rune(c.In[0]); len(in) > 1 { // and only at the end
					in[len(in)-1-pick(t, 2)] = d.any()
					c.In = append(c.In, string(in))
				}
			}
			if pick(t, 4) == 3 {
				c.Kind = "growing"
				for i := range c.G.Rules {
					c.Perm = append(c.Perm, i)
					j := pick(t, i+1)
					c.Perm[i], c.Perm[j] = c.Perm[j], c.Perm[i]
				}
			}
			for n := 4 + pick(t, 13); n > 0; n-- {
				o := Op{K: pureOps[pick(t, len(pureOps))], N: pick(t, len(c.In)), M: pick(t, 64)}
				o.S = c.Rule
				if pick(t, 2) == 0 {
					o.S = c.G.Rules[pick(t, len(c.G.Rules))].Name
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runC21,
	})
}

// kept is a result that a user still has
type kept struct {
	what string
	res  *xbnf.EvalResult
	ast  *xbnf.AST
	was  string
	// how it was made, for doing it again
	again func(g *xbnf.Grammar) string
	first string
}

func (k *kept) string() string {
	if k.ast != nil {
		return dumpNodes(k.ast.Nodes)
	}
	return resultString(k.res) + "/" + string(k.res.CharsRead) + "/" + string(k.res.CharsUnused)
}

func astString(ast *xbnf.AST, err error) string {
	if err != nil {
		return fmt.Sprintf("error, tree %v", ast != nil)
	}
	return dumpNodes(ast.Nodes)
}

// grow adds the rules one by one in some order, and uses what is there in between, complete or not
func grow(c *Case, x *Ctx) *xbnf.Grammar {
	g := xbnf.NewGrammar()
	for i, k := range c.Perm {
		r := c.G.Rules[k]
		if _, err := g.AddRule(r.Name + " = " + r.E.Print(nil)); err != nil {
			x.Failf("valid rule rejected: %v", err)
		}
		for j := i; j < len(c.Ops); j += len(c.Perm) {
			o := c.Ops[j]
			in := c.In[o.N]
			switch o.K {
			case "embed":
				g.EvalEmbed(o.S, in)
			case "print", "string":
				g.Serialize(o.M%2 == 0)
				g.GetRule(r.Name).StringWithIndent("  ")
			case "undef", "whole", "level":
				g.Validate()
				g.Eval(xbnf.NewCharstreamFromString(in), o.M%4)
			case "badrule":
				if _, err := g.AddRule("x_" + o.S + " = { " + o.S + " } ("); err == nil {
					x.Failf("malformed rule accepted")
				}
			default:
				if res := g.EvalRule(o.S, in); res != nil && res.Node != nil {
					res.MergeStickyNodes()
				} else if g.GetRule(o.S) != nil {
					x.Class("failed before it was complete")
				}
			}
		}
	}
	if err := g.Validate(); err != nil {
		x.Failf("complete grammar isn't valid: %v", err)
	}
	x.Class("rules added one by one, used in between")
	return g
}

// usersOrdered: the users of a rule are printed in the same order each time (an order that varies is no matter)
var usersOrdered = sync.OnceValue(func() bool {
	g, err := xbnf.NewGrammarFromString("x = 'x'\na = x\nf = x\nc = x\ne = x\nb = x\nd = x\ng = x\n")
	if err != nil {
		return false
	}
	order := func() string {
		for _, l := range strings.Split(g.Serialize(false), "\n") {
			if strings.HasPrefix(strings.TrimSpace(l), "x") {
				return l
			}
		}
		return ""
	}
	first := order()
	for i := 0; i < 50; i++ {
		if order() != first {
			return false
		}
	}
	return true
})

// listed is the printed grammar, in which only the order of root rules and that of the lines of the reference map don't matter
func listed(x *Ctx, g *xbnf.Grammar) string {
	l := parseListing(x, g.Serialize(false))
	if !usersOrdered() {
		return l.String()
	}
	return fmt.Sprint(l, l.users)
}

func runC21(c *Case, x *Ctx) {
	text := c.G.Text(nil)
	var g *xbnf.Grammar
	for _, s := range c.In { // within what the model can do
		m := NewModel(c.G, s, modelBudget)
		for _, r := range c.G.Rules {
			m.EvalRule(r.Name, 0, flagS)
		}
		NewModel(c.G, s, modelBudget).EvalRaw(c.G.roots())
	}
	for _, o := range c.Ops {
		if o.K == "embed" {
			NewModel(c.G, c.In[o.N], 4*modelBudget).EvalEmbed(o.S)
		}
	}
	if c.Kind == "growing" {
		g = grow(c, x)
		idle := xbnf.NewGrammar()
		for _, k := range c.Perm {
			idle.AddRule(c.G.Rules[k].Name + " = " + c.G.Rules[k].E.Print(nil))
		}
		idle.Validate()
		if a, b := listed(x, g), listed(x, idle); a != b {
			x.Failf("a grammar used while it grew is printed %s\nnot as one that wasn't: %s", a, b)
		}
	} else {
		g = mustGrammar(x, text)
	}
	listing := listed(x, g)
	var ks []*kept
	chars := []rune(c.In[0])
	base := xbnf.NewCharstreamFromString(c.In[0])
	cs, at := base, 0
	add := func(k *kept) {
		k.was = k.string()
		k.first = k.was
		ks = append(ks, k)
	}
	for step, o := range c.Ops {
		what := fmt.Sprintf("step %d (%s %s %d %d)", step, o.K, o.S, o.N, o.M)
		in, name := c.In[o.N], o.S
		flag := []int{flagS, flagNS, flagN}[o.M%3]
		var changed *kept
		nodes := 0
		for _, k := range ks {
			if k.ast != nil || k.res.Node != nil {
				nodes++
			}
		}
		switch o.K {
		case "rule":
			NewModel(c.G, in, modelBudget).EvalRule(name, 0, flag) // budget
			r := g.GetRule(name).Eval(g, xbnf.NewCharstreamFromString(in), flag)
			add(&kept{what: what, res: r, again: func(g *xbnf.Grammar) string {
				k := &kept{res: g.GetRule(name).Eval(g, xbnf.NewCharstreamFromString(in), flag)}
				return k.string()
			}})
		case "cont":
			from := at
			NewModel(c.G, c.In[0], modelBudget).EvalRule(name, from, flag) // budget
			r := g.GetRule(name).Eval(g, cs, flag)
			used := endOf(x, r)
			if o.M%2 == 1 { // what is behind the chars that were given belongs to nobody
				_, _ = append(r.CharsRead, 'Q'), append(r.CharsUnused, 'Q')
				if r.Node != nil {
					_ = append(r.Node.Chars, 'Q')
				}
			}
			if putBack != nil {
				cs = putBack(cs, r.CharsUnused)
			} else if len(r.CharsUnused) > 0 {
				cs = streamAt(chars, from+used)
			}
			at += used
			if got := cs.Cursor(); got != at {
				x.Failf("%s: the cursor of the stream is %d, want %d", what, got, at)
			}
			x.NonTrivial(nodes > 0)
			x.ClassIf(nodes > 0 && r.Node != nil && used > 0, "went on in the same stream")
			add(&kept{what: what, res: r, again: func(g *xbnf.Grammar) string {
				k := &kept{res: g.GetRule(name).Eval(g, streamAt(chars, from), flag)}
				return k.string()
			}})
			// what is there at the end of a stream that was read with the same rules from the same place
			if want := ks[len(ks)-1].again(mustGrammar(x, text)); want != ks[len(ks)-1].was {
				x.Failf("%s: going on at %d of %q: %s\nfresh: %s", what, from, c.In[0], ks[len(ks)-1].was, want)
			}
		case "restart":
			cs, at = xbnf.NewCharstreamFromString(c.In[0]), 0
		case "whole", "level":
			lev := -1
			if o.K == "level" {
				lev = o.M % 4
			}
			ev := func(g *xbnf.Grammar) (*xbnf.AST, error) {
				if lev < 0 {
					return g.EvalRaw(xbnf.NewCharstreamFromString(in))
				}
				return g.Eval(xbnf.NewCharstreamFromString(in), lev)
			}
			ast, err := ev(g)
			if err != nil {
				ast = nil
			}
			if ast != nil {
				add(&kept{what: what, ast: ast, again: func(g *xbnf.Grammar) string { return astString(ev(g)) }})
			}
		case "embed":
			add(&kept{what: what, res: g.EvalEmbed(name, in), again: func(g *xbnf.Grammar) string {
				k := &kept{res: g.EvalEmbed(name, in)}
				return k.string()
			}})
		case "print":
			g.Serialize(true)
			g.GetRule(name).StringWithIndent("  ")
		case "undef":
			if r := g.EvalRule("no_such_rule", in); r != nil && r.Node != nil {
				x.Failf("%s: undefined rule matched", what)
			}
			g.EvalRule(name, "")
			g.Validate()
		case "badrule":
			if _, err := g.ParseRule("new_rule", "( "+name+" 'a'"); err == nil {
				x.Failf("%s: malformed rule accepted", what)
			}
		case "simp", "string", "count":
			if len(ks) == 0 {
				break
			}
			k := ks[o.M/4%len(ks)]
			if o.K == "string" {
				if k.ast != nil {
					k.ast.StringTree(xbnf.DefaultNodeTreeConfig())
					k.ast.Text()
				} else {
					k.res.StringTree(xbnf.DefaultNodeTreeConfig())
					if k.res.Node != nil {
						k.res.Node.Text()
					}
				}
				break
			}
			if o.K == "count" {
				if k.ast != nil {
					k.ast.CountNodes()
					k.ast.CountTokens()
					k.ast.CountStickyNodes()
				}
				break
			}
			changed = k
			x.NonTrivial(nodes > 1)
			x.ClassIf(nodes > 1, "simplified next to other results")
			if k.ast != nil {
				switch o.M % 4 {
				case 0:
					k.ast.MergeStickyNodes()
				case 1:
					k.ast.RemoveVirtualNodes()
				case 2:
					k.ast.RemoveNonDataNodes()
				case 3:
					k.ast.RemoveRedundantNodes()
				}
			} else if k.res.Node != nil {
				switch o.M % 4 {
				case 0:
					k.res.MergeStickyNodes()
				case 1:
					k.res.Node.RemoveVirtualNodes()
				case 2:
					k.res.Node.RemoveNonDataNodes()
				case 3:
					k.res.Node.RemoveRedundantNodes()
				}
			}
		}
		for _, k := range ks {
			now := k.string()
			if k == changed {
				k.was = now
			} else if now != k.was {
				x.Failf("%s changed the result of %s: %s\nit was %s", what, k.what, now, k.was)
			}
		}
		if now := listed(x, g); now != listing {
			x.Failf("%s changed the printed grammar: %s\nit was %s", what, now, listing)
		}
	}
	// merging each of the results, one after the other, changes that one only
	for _, k := range ks {
		if k.ast != nil {
			k.ast.MergeStickyNodes()
		} else if k.res.Node != nil {
			k.res.MergeStickyNodes()
		}
		for _, o := range ks {
			now := o.string()
			if o == k {
				o.was = now
			} else if now != o.was {
				x.Failf("merging the result of %s changed the result of %s: %s\nit was %s", k.what, o.what, now, o.was)
			}
		}
	}
	fresh := mustGrammar(x, text)
	for _, k := range ks {
		if now := k.again(g); now != k.first {
			x.Failf("%s done again after all: %s\nit was %s", k.what, now, k.first)
		}
		if now := k.again(fresh); now != k.first {
			x.Failf("%s done on a fresh grammar: %s\nit was %s", k.what, now, k.first)
		}
	}
}
