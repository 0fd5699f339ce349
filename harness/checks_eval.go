package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// drawEval makes a grammar and texts for it
func drawEval(t *rapid.T, p Prof, texts int) *Case {
	g := drawGram(t, p)
	c := &Case{G: g, Rule: g.Rules[0].Name}
	if len(g.Rules) > 1 && chance(t, 3) {
		c.Rule = g.Rules[pick(t, len(g.Rules))].Name
	}
	c.In = drawTexts(t, g, g.find(c.Rule), p, texts)
	return c
}

// evalBoth evaluates a rule by the code under test and by the model
func evalBoth(x *Ctx, g *xbnf.Grammar, gr *Gram, rule, text string, off, flag int) (*xbnf.EvalResult, MRes, *Model) {
	m := NewModel(gr, text, modelBudget)
	w := m.EvalRule(rule, off, flag)
	var r *xbnf.EvalResult
	if off == 0 && flag == flagS {
		r = g.EvalRule(rule, text)
	} else {
		rec := g.GetRecord(rule)
		if rec == nil {
			x.Failf("rule %s has no record", rule)
		}
		r = rec.Rule().Eval(g, streamAt(m.in, off), flag)
	}
	return r, w, m
}

func countEvents(x *Ctx, m *Model, w MRes) {
	x.ClassIf(w.OK, "matched")
	x.ClassIf(!w.OK, "not matched")
	x.ClassIf(w.OK && w.End < len(m.in), "matched, text left")
	x.ClassIf(m.ev.ambig > 0, "ambiguous choice")
	x.ClassIf(m.ev.choiceMulti > 0, "several alternatives match")
	x.ClassIf(m.ev.longestNotFirst > 0, "longest isn't the first match")
	x.ClassIf(m.ev.choiceLater > 0, "later group chosen")
	x.ClassIf(m.ev.optMissed > 0, "option not matched")
	x.ClassIf(m.ev.repStopped > 0, "repetition stopped by a mismatch")
	x.ClassIf(m.ev.repZero > 0, "zero-length iteration")
	x.ClassIf(m.ev.blockEsc > 0, "block escape")
	x.ClassIf(m.ev.blockExcl > 0, "block exclude met")
	x.ClassIf(m.ev.blockVC > 0, "virtual close")
	x.ClassIf(m.ev.skippedWS > 0, "whitespace skipped")
	x.ClassIf(m.ev.wsTerminal > 0, "whitespace matched by a terminal")
	x.ClassIf(m.ev.refToggle > 0, "annotated reference")
	x.ClassIf(m.maxD > 15, "deeper than 15")
}

// ---------------------------------------------------------------- C01 choice

func permuteChoices(e *Expr, l *Layout) {
	e.walk(func(k *Expr) {
		for _, gr := range k.Groups {
			for i := len(gr) - 1; i > 0; i-- {
				j := l.pick(i + 1)
				gr[i], gr[j] = gr[j], gr[i]
			}
		}
	})
}

func init() {
	w := weights(map[string]int{"choice": 9, "cat": 6, "opt": 3, "rep": 3, "block": 1, "ref": 5})
	register(&Check{
		ID: "C01", Quick: 400000, Thorough: 8000000,
		Rule: "a case is a grammar whose first rule is mostly a choice, a permutation of the alternatives inside each group, and 1-5 texts derived from the grammar and mutated; non-trivial: in some evaluation two or more alternatives of one group match, a choice is ambiguous, or a later ordered group decides",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.Rules, p.Depth = w, 4, 3
			if pick(t, 3) > 0 {
				p.Alpha, p.Space, p.WSText = alphaTiny, " \n", 1
				p = big(t, p, 16)
			} else {
				p = drawProf(t, p)
			}
			if pick(t, 4) > 0 {
				p.Top = "choice"
			}
			c := drawEval(t, p, 5)
			c.L2 = drawLayout(t, 12)
			return c
		},
		Run: runC01,
	})
}

func runC01(c *Case, x *Ctx) {
	g := mustGrammar(x, c.G.Text(nil))
	perm := c.G.clone()
	l := &Layout{d: c.L2}
	for i := range perm.Rules {
		permuteChoices(perm.Rules[i].E, l)
	}
	g2 := mustGrammar(x, perm.Text(nil))
	// each alternative of the rule's own choice as a rule of its own
	top := c.G.find(c.Rule)
	var galt *xbnf.Grammar
	if top.K == "choice" {
		ga := c.G.clone()
		for i, gr := range top.Groups {
			for j, k := range gr {
				ga.Rules = append(ga.Rules, Rule{fmt.Sprintf("alt_%d_%d", i, j), k})
			}
		}
		galt = mustGrammar(x, ga.Text(nil))
	}
	for _, text := range c.In {
		r, want, m := evalBoth(x, g, c.G, c.Rule, text, 0, flagS)
		countEvents(x, m, want)
		x.NonTrivial(m.ev.choiceMulti > 0 || m.ev.choiceLater > 0)
		what := fmt.Sprintf("rule %s on %q", c.Rule, text)
		compareEval(x, what, r, want, 0, m.in, mShape)
		if want.Amb && top.K == "choice" && !strings.Contains(strings.ToLower(r.Error.Error()), "ambigu") {
			x.Failf("%s: an ambiguous choice is reported as: %v", what, r.Error)
		}
		// the order of alternatives in a group means nothing
		r2 := g2.EvalRule(c.Rule, text)
		if (r.Node == nil) != (r2.Node == nil) || endOf(x, r) != endOf(x, r2) || dump(r.Node) != dump(r2.Node) || r.Sticky != r2.Sticky {
			x.Failf("%s: the order of alternatives in a group changes the result: %d used %s sticky %v, permuted (%s): %d used %s sticky %v", what,
				endOf(x, r), dump(r.Node), r.Sticky, oneLine(perm.Text(nil)), endOf(x, r2), dump(r2.Node), r2.Sticky)
		}
		if galt == nil {
			continue
		}
		// the choice against its alternatives on their own
		var bestNode *xbnf.Node
		best, ties := -1, 0
		for i, gr := range top.Groups {
			for j := range gr {
				ra := galt.EvalRule(fmt.Sprintf("alt_%d_%d", i, j), text)
				if ra.Node == nil {
					continue
				}
				switch n := endOf(x, ra); {
				case n > best:
					best, ties, bestNode = n, 1, ra.Node
				case n == best:
					ties++
				}
			}
			if best >= 0 {
				break
			}
		}
		switch {
		case best < 0 || ties > 1:
			if r.Node != nil {
				x.Failf("%s: matched, but of its alternatives %d match longest", what, ties)
			}
		case r.Node == nil:
			x.Failf("%s: not matched (%v), but one alternative matches %d chars", what, r.Error, best)
		case endOf(x, r) != best:
			x.Failf("%s: used %d chars, the longest alternative uses %d", what, endOf(x, r), best)
		case len(r.Node.ChildNodes) != 1 || string(r.Node.ChildNodes[0].Text()) != string(bestNode.Text()):
			x.Failf("%s: node %s isn't that of the longest alternative %s", what, dump(r.Node), dump(bestNode))
		}
	}
}

// ---------------------------------------------------------------- C02 concatenation, repetition, option

func init() {
	w := weights(map[string]int{"choice": 2, "cat": 9, "opt": 6, "rep": 8, "group": 3, "block": 1, "eof": 1, "char": 8})
	register(&Check{
		ID: "C02", Quick: 400000, Thorough: 6000000,
		Rule: "a case is a grammar rich in concatenations, options, groups and repetitions with all forms of counts, and 1-5 texts derived from it (also with one iteration too many or too few) and mutated; non-trivial: an option is not matched, or a repetition is ended by a mismatch, its maximum or a zero-length iteration, or falls short of its minimum",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.WideRep, p.EmptyStr = w, true, 2
			p = drawProf(t, p)
			switch pick(t, 4) {
			case 0:
				p.Top = "cat"
			case 1:
				p.Top = "rep"
			}
			return drawEval(t, p, 5)
		},
		Run: func(c *Case, x *Ctx) {
			g := mustGrammar(x, c.G.Text(nil))
			interesting := c.G.has("rep") || c.G.has("opt")
			for _, text := range c.In {
				for _, flag := range []int{flagS, flagNS} {
					r, want, m := evalBoth(x, g, c.G, c.Rule, text, 0, flag)
					countEvents(x, m, want)
					x.NonTrivial(interesting && (m.ev.optMissed+m.ev.repStopped+m.ev.repZero > 0 || want.OK && want.End > 1))
					compareEval(x, fmt.Sprintf("rule %s on %q (flag %d)", c.Rule, text, flag), r, want, 0, m.in, mShape)
				}
			}
		},
		Once:  everyCount,
		OnceN: 1700,
	})
}

// ---------------------------------------------------------------- C03 terminals and whitespace

func init() {
	w := map[string]int{"char": 6, "chars": 5, "string": 6, "range": 5, "opt": 1, "rep": 1, "cat": 6, "choice": 1, "eof": 1, "group": 1}
	register(&Check{
		ID: "C03", Quick: 500000, Thorough: 8000000,
		Rule:  "a case is a rule of one terminal, or a short sequence of terminals, over an alphabet with all kinds of whitespace (also inside of the terminals), evaluated with each of the three whitespace flags at an offset of texts made of runs of whitespace and terminals; non-trivial: whitespace was skipped or matched, or the terminal contains whitespace",
		OnceN: 2*0x110000 + 39*40000,
		Once: func(x *Ctx) {
			for c := rune(-2); c <= 0x10FFFF+1; c++ {
				if xbnf.IsWhiteSpace(c) != unicode.IsSpace(c) {
					x.Failf("IsWhiteSpace(%U) is %v", c, xbnf.IsWhiteSpace(c))
				}
			}
			g := mustGrammar(x, "s = \"q\"\nc = 'q'\nr = 'p'-'q'\nt = 'qq'\n")
			for c := rune(1); c <= 0x10FFFF; c++ {
				if c > 0x3100 && c&0x3FF != 0 && c != 0xFEFF || c >= 0xD800 && c < 0xE000 {
					continue
				}
				skipped := unicode.IsSpace(c)
				for _, rule := range []string{"s", "c", "r", "t"} {
					text := string(c) + "qq"
					r := g.EvalRule(rule, text)
					if c == 'q' || rule == "r" && c == 'p' {
						continue
					}
					if (r.Node != nil) != skipped {
						x.Failf("rule %s on %q: matched=%v, want %v", rule, text, r.Node != nil, skipped)
					}
				}
			}
			x.Class("all chars enumerated")
			everyTerminal(x)
		},
		Draw: func(t *rapid.T) *Case {
			p := Prof{Alpha: "abq", Space: spaceUni, W: w, Rules: 1, Depth: 0, WSText: 4, EmptyStr: 1}
			switch pick(t, 5) {
			case 0, 1:
			case 2, 3:
				p.Depth, p.Top, p.MaxKids = 1, "cat", 4
			case 4:
				p.Depth, p.MaxKids = 2, 4
				p.Space = " \n"
			}
			if pick(t, 3) == 0 {
				p.Space = " \t\n"
			}
			if pick(t, 5) == 0 {
				p.Alpha = alphaUni
			}
			p = big(t, p, 12)
			c := drawEval(t, p, 4)
			if pick(t, 2) == 0 { // texts that are mostly whitespace
				d := &deriver{g: c.G, t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space), max: 400}
				var out []rune
				for i, n := 0, pick(t, 8); i < n; i++ {
					if pick(t, 4) == 3 {
						out = append(out, d.any())
					} else {
						out = append(out, d.space[pick(t, len(d.space))])
					}
				}
				c.In = append(c.In, string(out)+c.In[0])
			}
			c.N = pick(t, 4)
			return c
		},
		Run: func(c *Case, x *Ctx) {
			g := mustGrammar(x, c.G.Text(nil))
			for _, text := range c.In {
				off := c.N
				if n := len([]rune(text)); off > n {
					off = n
				}
				for _, flag := range []int{flagS, flagNS, flagN} {
					r, want, m := evalBoth(x, g, c.G, c.Rule, text, off, flag)
					countEvents(x, m, want)
					x.NonTrivial(m.ev.skippedWS+m.ev.wsTerminal > 0)
					x.ClassIf(off > 0, "at an offset")
					compareEval(x, fmt.Sprintf("rule %s at %d of %q (flag %d)", c.Rule, off, text, flag), r, want, off, m.in, mShape)
				}
			}
		},
	})
}

// everyTerminal matches each char against terminals, and the chars that a terminal is made of in all other cases and
// the like are among them
func everyTerminal(x *Ctx) {
	type term struct {
		def    string
		lo, hi rune
	}
	var all []term
	for _, r := range [][2]rune{{'0', '9'}, {'a', 'z'}, {'A', 'Z'}, {'!', '~'}, {0xE0, 0xFF}, {0x4E00, 0x9FFF}, {0x10000, 0x10FFFF}, {'1', '2'}, {0x0660, 0x0669}, {0x7F, 0x100}, {0xFFFE, 0x10001}} {
		if r[1] > 0xFFFF || r[0] > 0xFFFF {
			all = append(all, term{"'" + string(r[0]) + "'-'" + string(r[1]) + "'", r[0], r[1]})
			continue
		}
		all = append(all, term{fmt.Sprintf("\\u%04X-\\u%04X", r[0], r[1]), r[0], r[1]})
	}
	for _, c := range []rune{'K', 's', 'i', '1', '-', 'é', 'ß', 'Σ', '中', 0x212A, 0x1F600, 0x1D7D8, '\u00b2', 0xFFFD} {
		all = append(all, term{"'" + string(c) + "'", c, c}, term{"\"" + string(c) + "\"", c, c})
	}
	var b strings.Builder
	for i, k := range all {
		fmt.Fprintf(&b, "r%d = %s\n", i, k.def)
	}
	g := mustGrammar(x, b.String())
	for i := range all {
		rule := g.GetRule(fmt.Sprintf("r%d", i))
		for c := rune(1); c <= 0x10FFFF; c++ {
			if c >= 0xD800 && c < 0xE000 || c > 0x3100 && c&0x1F != 0 && c < 0xF900 || c > 0x20000 && c&0xFF != 0 {
				continue
			}
			r := rule.Eval(g, xbnf.NewCharstreamFromString(string(c)), flagN)
			if got, want := r.Node != nil, c >= all[i].lo && c <= all[i].hi; got != want {
				x.Failf("rule %s on %U (%q): matched=%v, want %v", all[i].def, c, string(c), got, want)
			}
		}
	}
	x.Class("terminals on all chars")
}

// everyCount takes repetitions with counts around the limits of all kinds of small integers, and texts with about
// as many items
func everyCount(x *Ctx) {
	bounds := []int{0, 1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 99, 100, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024}
	type mm struct{ min, max int }
	var all []mm
	for i, a := range bounds {
		for j, b := range bounds[i:] {
			if j < 2 || a < 4 || a == 10 || b == 256 {
				all = append(all, mm{a, b})
			}
		}
		all = append(all, mm{a, 0})
	}
	all = append(all, mm{4096, 4096}, mm{3, 4096}, mm{0, 32768}, mm{65535, 65535}, mm{0, 65536}, mm{65536, 0})
	for _, c := range all {
		tick()
		def := fmt.Sprintf("r = { 'a' }<%d,%d>", c.min, c.max)
		g := mustGrammar(x, def+"\n")
		printed := g.GetRule("r").String()
		g2 := mustGrammar(x, "r = "+printed+"\n")
		for _, k := range []int{0, 1, c.min - 1, c.min, c.min + 1, c.max - 1, c.max, c.max + 1, c.max + 3} {
			if k < 0 || c.max > 2000 && k < c.max-1 {
				continue
			}
			text := strings.Repeat("a", k)
			r := g.EvalRule("r", text)
			used := k
			if c.max > 0 && used > c.max {
				used = c.max
			}
			if (r.Node != nil) != (k >= c.min) {
				x.Failf("%s on %d chars: matched=%v", def, k, r.Node != nil)
			}
			if r.Node != nil && (endOf(x, r) != used || len(r.Node.Text()) != used) {
				x.Failf("%s on %d chars: %d chars used, the node has %d, want %d", def, k, endOf(x, r), len(r.Node.Text()), used)
			}
			if k < 2000 {
				if a, b := resultString(r), resultString(g2.EvalRule("r", text)); a != b {
					x.Failf("%s on %d chars: %s\nas printed (%s): %s", def, k, a, printed, b)
				}
			}
		}
	}
	x.Class("every count")
}

// ---------------------------------------------------------------- C04 blocks

func init() {
	w := map[string]int{"char": 4, "chars": 3, "string": 4, "range": 1, "ref": 4, "opt": 1, "rep": 1, "group": 1, "cat": 4, "choice": 3, "block": 9}
	register(&Check{
		ID: "C04", Quick: 500000, Thorough: 8000000,
		Rule: "a case is a grammar with text blocks (open, optional escape, any number of exclude rules, close or virtual close; each a terminal, group, reference, option or repetition) and 1-5 texts with escaped and unescaped close and exclude text; non-trivial: a block was entered and an escape, an exclude, a virtual close or at least two chars of content were met",
		Draw: func(t *rapid.T) *Case {
			p := Prof{Alpha: "ab\"\\", Space: " \n", W: w, Rules: 3, Depth: 2, EmptyStr: 1, Top: "block"}
			switch pick(t, 6) {
			case 0:
				p.Alpha = "ab"
			case 1:
				p.Alpha = "/*\\"
			case 2:
				p.Alpha, p.Space, p.WSText = "ab\\", spaceUni, 3
			case 3:
				p.Alpha = alphaUni
			}
			if pick(t, 4) == 0 {
				p.Top, p.Depth = "", 3
			}
			p = big(t, p, 12)
			return drawEval(t, p, 5)
		},
		Run: func(c *Case, x *Ctx) {
			g := mustGrammar(x, c.G.Text(nil))
			for _, text := range c.In {
				r, want, m := evalBoth(x, g, c.G, c.Rule, text, 0, flagS)
				countEvents(x, m, want)
				x.NonTrivial(m.ev.blockEsc+m.ev.blockExcl+m.ev.blockVC > 0 || m.ev.blockContent > 1)
				x.ClassIf(m.ev.blockEsc > 0 && m.ev.blockExcl > 0, "escape and exclude")
				compareEval(x, fmt.Sprintf("rule %s on %q", c.Rule, text), r, want, 0, m.in, mShape)
			}
		},
	})
}

// ---------------------------------------------------------------- C05 no char lost or duplicated

func init() {
	w := weights(map[string]int{"choice": 6, "rep": 5, "cat": 9, "block": 3, "opt": 4})
	register(&Check{
		ID: "C05", Quick: 400000, Thorough: 8000000,
		Rule: "a case is any grammar (with much shared prefixes, so that much is read ahead and put back) and 1-4 texts, evaluated at an offset of a stream with each whitespace flag; non-trivial: chars were read ahead and put back, or the rule used chars and left some",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W = w
			p = drawProf(t, p)
			c := drawEval(t, p, 4)
			c.N = pick(t, 6)
			c.Flag = []int{flagS, flagNS, flagN}[pick(t, 3)]
			return c
		},
		Run:  runC05,
		Once: farAhead, OnceN: 10*9*3 + 3*4,
	})
}

// farAhead takes rules that read the whole text ahead, however long, and use just the start of it
func farAhead(x *Ctx) {
	defs := []struct {
		def  string
		used int
	}{
		{"r = <'a' 'z'> | 'a'", 1},
		{"r = ( { 'a' } 'z' ) | \"aa\"", 2},
		{"r = [ { 'a' } 'z' ] 'a'", 1},
		{"r = { 'a' { 'a' } 'z' } 'a' 'a'", 2},
		{"r = ( ( { 'a' } 'z' ) > 'a' ) 'a'", 2},
		{"r = { s | 'a' }<3,3>\ns = { 'a' } 'z'", 3},
		{"r = s s\ns = ~t > 'a'\nt = <'a' 'z'>", 2},
		{"r = <'a' ^( { 'a' } 'z' ) 'a'>", 2},
		{"r = <'a' ( { 'a' } 'z' ) 'a'>", 2},
		{"r = ( <'a' 'z' !> | 'a' ) { <'a' 'y'> }", 1},
	}
	for _, n := range []int{100, 255, 256, 1000, 1024, 2048, 4096, 5000, 65600} {
		for i, d := range defs {
			g := mustGrammar(x, d.def+"\n")
			for _, tail := range []string{"", "bc", "\na"} {
				tick()
				text := []rune(strings.Repeat("a", n) + tail)
				cs := xbnf.NewCharstreamFromString(string(text))
				r := g.GetRule("r").Eval(g, cs, flagNS)
				what := fmt.Sprintf("%s on %d chars", oneLine(d.def), len(text))
				if r.Node == nil || endOf(x, r) != d.used {
					x.Failf("%s: matched=%v, %d chars used, want %d", what, r.Node != nil, endOf(x, r), d.used)
				}
				checkAccounting(x, what, r, text, 0, cs.Cursor())
				if cs.Cursor() < n {
					x.Failf("%s: only %d chars read", what, cs.Cursor())
				}
			}
			if n > 1024 || i != 0 && i != 2 && i != 4 {
				continue
			}
			tick()
			ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(strings.Repeat("a", n/d.used*d.used)))
			if err != nil || len(ast.Nodes) != n/d.used {
				x.Failf("%s on a whole text of %d chars: %v", oneLine(d.def), n, err)
			}
		}
	}
	x.Class("far ahead")
}

// hasEscape: the content of a block leaves out some escape chars, and repeats others
func hasEscape(g *Gram) bool {
	found := false
	g.walk(func(e *Expr) {
		if e.Esc != nil {
			found = true
		}
	})
	return found
}

func checkAccounting(x *Ctx, what string, r *xbnf.EvalResult, text []rune, from, to int) {
	if got := to - from; len(r.CharsRead) != got {
		x.Failf("%s: %d chars were taken from the stream, but %d are reported read", what, got, len(r.CharsRead))
	}
	if string(r.CharsRead) != string(text[from:to]) {
		x.Failf("%s: chars read %q, but %q was taken from the stream", what, string(r.CharsRead), string(text[from:to]))
	}
	used := endOf(x, r)
	if string(r.CharsUnused) != string(r.CharsRead[used:]) {
		x.Failf("%s: chars unused %q is not the end of the chars read %q", what, string(r.CharsUnused), string(r.CharsRead))
	}
	if r.Node == nil {
		if used != 0 {
			x.Failf("%s: not matched, but %d chars are used", what, used)
		}
		if r.Error == nil {
			x.Failf("%s: not matched, and no error", what)
		}
	}
}

func runC05(c *Case, x *Ctx) {
	g := mustGrammar(x, c.G.Text(nil))
	esc := hasEscape(c.G)
	for _, s := range c.In {
		text := []rune(s)
		off := c.N
		if off > len(text) {
			off = len(text)
		}
		m := NewModel(c.G, s, modelBudget)
		want := m.EvalRule(c.Rule, off, c.Flag)
		cs := streamAt(text, off)
		rule := g.GetRecord(c.Rule).Rule()
		r := rule.Eval(g, cs, c.Flag)
		what := fmt.Sprintf("rule %s at %d of %q (flag %d)", c.Rule, off, s, c.Flag)
		to := cs.Cursor()
		if to < off || to > len(text) {
			x.Failf("%s: cursor %d", what, to)
		}
		checkAccounting(x, what, r, text, off, to)
		countEvents(x, m, want)
		x.ClassIf(len(r.CharsUnused) > 0, "chars put back")
		x.NonTrivial(len(r.CharsUnused) > 0 || want.OK && want.End > off && want.End < len(text))
		if r.Node != nil {
			var leaves [][]rune
			realLeaves(r.Node, &leaves)
			used := r.CharsRead[:endOf(x, r)]
			if !esc && !covers(used, leaves) {
				x.Failf("%s: used %q, but the leaves are %q", what, string(used), leaves)
			}
		}
		if (r.Node != nil) != want.OK || want.OK && endOf(x, r) != want.End-off {
			x.Failf("%s: matched=%v, %d chars used; want matched=%v, %d chars used", what, r.Node != nil, endOf(x, r), want.OK, want.End-off)
		}
		// what the stream still has is what was not read
		for i := to; i < len(text); i++ {
			if ch := cs.Next(); ch != text[i] {
				x.Failf("%s: char %d of the stream is %q after the evaluation", what, i, ch)
			}
		}
		if cs.Next() != xbnf.EOFChar {
			x.Failf("%s: the stream has more chars after the evaluation", what)
		}
		// the rest of the text on its own gives the same
		if off > 0 && !c.G.has("eof") || off > 0 {
			r2 := rule.Eval(g, xbnf.NewCharstreamFromString(string(text[off:])), c.Flag)
			if (r.Node == nil) != (r2.Node == nil) || string(r.CharsRead) != string(r2.CharsRead) || string(r.CharsUnused) != string(r2.CharsUnused) {
				x.Failf("%s: read %q unused %q, but on its own the rest of the text gives read %q unused %q", what, string(r.CharsRead), string(r.CharsUnused), string(r2.CharsRead), string(r2.CharsUnused))
			}
			if r.Node != nil && string(r.Node.Text()) != string(r2.Node.Text()) {
				x.Failf("%s: text %q, but on its own the rest of the text gives %q", what, string(r.Node.Text()), string(r2.Node.Text()))
			}
		}
	}
	// whole texts: every char is in exactly one leaf, or is skipped whitespace
	for _, s := range c.In {
		NewModel(c.G, s, modelBudget).EvalRaw(c.G.roots()) // budget
		ast, err := g.Eval(xbnf.NewCharstreamFromString(s), xbnf.LevelRaw)
		if err != nil {
			continue
		}
		x.Class("whole text matched")
		var leaves [][]rune
		for _, n := range ast.Nodes {
			realLeaves(n, &leaves)
		}
		if !esc && !covers([]rune(s), leaves) {
			x.Failf("Eval of %q: the leaves are %q", s, leaves)
		}
	}
}

// ---------------------------------------------------------------- C06 positions

func init() {
	w := weights(map[string]int{"choice": 5, "rep": 5, "cat": 9, "block": 3, "opt": 5, "group": 4})
	register(&Check{
		ID: "C06", Quick: 400000, Thorough: 8000000,
		Rule: "a case is any grammar and 1-4 texts of several lines (leading whitespace, newlines inside of whitespace, blocks over lines, chars outside of ASCII), evaluated at an offset, and as a whole text at each simplification level; non-trivial: the tree has a node with text that isn't on the first line, or not at the first char",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W = w
			p = drawProf(t, p)
			if pick(t, 2) == 0 {
				p.Space = "\n "
			}
			if pick(t, 3) == 0 {
				p.Space = "\n\r\t\u2028 "
			}
			if pick(t, 4) == 0 {
				p.Ann = 3
			}
			c := drawEval(t, p, 4)
			c.N = pick(t, 5)
			c.M = pick(t, 4) // level
			return c
		},
		Run: runC06,
	})
}

// checkLeafPos: the text of a leaf is found at its position
func checkLeafPos(x *Ctx, what string, n *xbnf.Node, text []rune, index map[string]int, esc bool) {
	if len(n.ChildNodes) == 0 && len(n.Chars) > 0 && !isEOFChars(n.Chars) {
		at, ok := index[posString(n.Position)]
		if !ok {
			x.Failf("%s: the leaf %q is at %s, where no char is", what, string(n.Chars), posString(n.Position))
		}
		end := at + len(n.Chars)
		if !esc && (end > len(text) || string(text[at:end]) != string(n.Chars)) {
			x.Failf("%s: the leaf %q is at %s, where the text is %q", what, string(n.Chars), posString(n.Position), clip(string(text[at:]), 20))
		}
	}
	for _, k := range n.ChildNodes {
		checkLeafPos(x, what, k, text, index, esc)
	}
}

func runC06(c *Case, x *Ctx) {
	g := mustGrammar(x, c.G.Text(nil))
	esc := hasEscape(c.G)
	for _, s := range c.In {
		text := []rune(s)
		off := c.N
		if off > len(text) {
			off = len(text)
		}
		index := map[string]int{}
		for i := range text {
			index[offString(text, i)] = i
		}
		r, want, m := evalBoth(x, g, c.G, c.Rule, s, off, flagS)
		countEvents(x, m, want)
		what := fmt.Sprintf("rule %s at %d of %q", c.Rule, off, s)
		if r.Node != nil {
			checkLeafPos(x, what, r.Node, text, index, esc)
			if want.OK && sameShape(r.Node, want.Node) {
				if d := diffTree(r.Node, want.Node, text, mPos, "node"); d != "" {
					x.Failf("%s: %s", what, d)
				}
				want.Node.walk(func(n *MNode) {
					if n.Off > 0 {
						x.NonTrivial(true)
						l, _ := lineCol(text, n.Off)
						x.ClassIf(l > 1, "node on a later line")
					}
				})
			} else {
				x.Class("shape differs from the model")
			}
		}
		// whole text
		level := []int{xbnf.LevelRaw, xbnf.LevelBasic, xbnf.LevelNoVertual, xbnf.LevelDataOnly}[c.M]
		m2 := NewModel(c.G, s, modelBudget)
		wa := m2.EvalRaw(c.G.roots())
		ast, err := g.Eval(xbnf.NewCharstreamFromString(s), level)
		if err != nil || !wa.OK {
			continue
		}
		nodes := wa.Nodes
		simplify(&nodes, level)
		if diffList(ast.Nodes, nodes, text, mShape) != "" {
			x.Class("simplified shape differs from the model")
			continue
		}
		x.Class(fmt.Sprintf("whole text at level %d", level))
		if d := diffList(ast.Nodes, nodes, text, mPos); d != "" {
			x.Failf("Eval of %q at level %d: %s", s, level, d)
		}
	}
}

// simplify is what Eval does after parsing
func simplify(nodes *[]*MNode, level int) {
	if level == xbnf.LevelRaw {
		return
	}
	*nodes = mergeList(*nodes)
	if level == xbnf.LevelNoVertual || level == xbnf.LevelDataOnly {
		*nodes = filterList(*nodes, isVirtual)
	}
	if level == xbnf.LevelDataOnly {
		*nodes = filterList(*nodes, isNonData)
	}
	for _, n := range *nodes {
		if !n.Non {
			redundant(n)
		}
	}
}

// ---------------------------------------------------------------- C07 whole texts

func init() {
	w := weights(map[string]int{"choice": 4, "ref": 2, "eof": 1})
	register(&Check{
		ID: "C07", Quick: 240000, Thorough: 5000000,
		Rule: "a case is a grammar, mostly with several root rules that match prefixes of each other, and 1-4 texts that are sequences of what the roots match, mutated; each is evaluated several times (the roots have no order); non-trivial: at some point two or more roots match, or more than one root node results",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.Rules, p.Depth, p.Twins, p.Ann = w, 5, 2, 5, 2
			if pick(t, 2) == 0 {
				p.Alpha, p.Space = alphaTiny, " \n"
			} else {
				p = drawProf(t, p)
				p.Depth = 2
			}
			p.Roots = true
			g := drawGram(t, p)
			c := &Case{G: g, N: 2 + pick(t, 5)}
			roots := g.roots()
			n := 1 + pick(t, 4)
			for i := 0; i < n; i++ {
				d := &deriver{g: g, t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space), fuel: 24, max: 400}
				for k := 1 + pick(t, 5); k > 0 && len(roots) > 0; k-- {
					d.derive(g.find(roots[pick(t, len(roots))]), pick(t, 4) == 3)
				}
				for k := weighted(t, []int{8, 3, 2, 1}); k > 0; k-- {
					d.mutate()
				}
				c.In = append(c.In, string(d.out))
			}
			return c
		},
		Run:  runC07,
		Once: manyMatches, OnceN: 4 * 14,
	})
}

// manyMatches are texts of very many root matches
func manyMatches(x *Ctx) {
	g := mustGrammar(x, "r = 'a'\ns = \"b\" 'c'\nv = ~'d'\n")
	for _, n := range []int{99, 100, 255, 256, 500, 999, 1000, 1023, 1024, 4095, 4096, 10000, 32767, 65535} {
		for k := 0; k < 4; k++ {
			tick()
			n := n + k
			parts := []string{"a", "\nbc", "d", "a", "b c"}
			names := []string{"r", "s", "v", "r", "s"}
			var text strings.Builder
			for i := 0; i < n; i++ {
				text.WriteString(parts[i*(k+1)%5])
			}
			ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(text.String()))
			if err != nil {
				x.Failf("a text of %d matches: %v", n, err)
			}
			if len(ast.Nodes) != n {
				x.Failf("a text of %d matches: %d nodes", n, len(ast.Nodes))
			}
			for i, nd := range ast.Nodes {
				if want := strings.TrimSpace(parts[i*(k+1)%5]); nd.RuleName != names[i*(k+1)%5] || strings.ReplaceAll(string(nd.Text()), " ", "") != strings.ReplaceAll(want, " ", "") {
					x.Failf("a text of %d matches: node %d is %s of rule %s, want %s", n, i, string(nd.Text()), nd.RuleName, want)
				}
			}
			if ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(text.String() + "x")); err == nil || ast != nil {
				x.Failf("a text of %d matches and an x is parsed", n)
			}
		}
	}
	x.Class("many matches")
}

func runC07(c *Case, x *Ctx) {
	roots := c.G.roots()
	text0 := c.G.Text(nil)
	var gs []*xbnf.Grammar
	for i := 0; i < 2; i++ {
		gs = append(gs, mustGrammar(x, text0))
	}
	for _, s := range c.In {
		m := NewModel(c.G, s, modelBudget)
		want := m.EvalRaw(roots)
		x.ClassIf(want.OK, "matched")
		x.ClassIf(want.OK && len(want.Nodes) > 1, "several root nodes")
		x.ClassIf(want.multi > 0, "several roots match")
		x.ClassIf(want.Amb, "ambiguous roots")
		x.ClassIf(want.Zero, "root matches nothing")
		x.ClassIf(!want.OK && !want.Amb && !want.Zero && !want.Empty, "no root matches")
		x.NonTrivial(want.multi > 0 || len(want.Nodes) > 1)
		what := fmt.Sprintf("Eval of %q", s)
		first := ""
		for i := 0; i < c.N; i++ {
			g := gs[i%len(gs)]
			cs := xbnf.NewCharstreamFromString(s)
			var ast *xbnf.AST
			var err error
			if i%2 == 0 {
				ast, err = g.Eval(cs, xbnf.LevelRaw)
			} else {
				ast, err = g.EvalRaw(cs)
			}
			if (err == nil) != want.OK {
				x.Failf("%s: error %v, want matched=%v", what, err, want.OK)
			}
			if err != nil {
				if ast != nil {
					x.Failf("%s: both a tree and an error", what)
				}
				continue
			}
			if ast == nil {
				x.Failf("%s: neither a tree nor an error", what)
			}
			if d := diffList(ast.Nodes, want.Nodes, m.in, mShape|mName); d != "" {
				x.Failf("%s: %s\n got %swant %s", what, d, dumpNodes(ast.Nodes), wantDump(&MNode{Kids: want.Nodes, Off: -1}, m.in))
			}
			if d := dumpNodes(ast.Nodes); first == "" {
				first = d
			} else if d != first {
				x.Failf("%s: two evaluations differ:\n%s%s", what, first, d)
			}
			if cs.Next() != xbnf.EOFChar {
				x.Failf("%s: a tree results, but the text isn't read to its end", what)
			}
		}
	}
}
