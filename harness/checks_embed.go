package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C18 embedded evaluation

func init() {
	w := weights(map[string]int{"choice": 6, "block": 3, "rep": 5, "eof": 2})
	register(&Check{
		ID: "C18", Quick: 150000, Thorough: 4000000,
		Rule: "a case is a grammar and 1-3 texts in which what the rule matches (or nearly does) stands between other chars; the children of the embedded evaluation are compared with evaluations of the rule at each place, and with the model; non-trivial: there is a match, and free text",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.Ann = w, 1
			p = drawProf(t, p)
			if pick(t, 3) > 0 {
				p.Depth = 2
			}
			g := drawGram(t, p)
			c := &Case{G: g, Rule: g.Rules[0].Name}
			if chance(t, 3) {
				c.Rule = g.Rules[pick(t, len(g.Rules))].Name
			}
			for n := 1 + pick(t, 3); n > 0; n-- {
				d := &deriver{g: g, t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space), fuel: 16, max: 400}
				max := 120
				for k := 1 + pick(t, 5); k > 0 && len(d.out) < max-40; k-- {
					for j := weighted(t, []int{4, 4, 2, 1}); j > 0; j-- {
						d.out = append(d.out, d.any())
					}
					if pick(t, 150) == 149 { // much free text
						max = 3000
						long := []rune{d.any(), d.any(), '?'}
						for j := 20 + pick(t, 1500); j > 0; j-- {
							d.out = append(d.out, long[pick(t, 3)])
						}
					}
					d.fuel = 8
					d.derive(g.find(c.Rule), pick(t, 3) > 0)
				}
				for k := weighted(t, []int{8, 3, 2}); k > 0; k-- {
					d.mutate()
				}
				if len(d.out) > max {
					d.out = d.out[:max]
				}
				c.In = append(c.In, string(d.out))
			}
			return c
		},
		Run: runC18,
	})
}

func runC18(c *Case, x *Ctx) {
	g := mustGrammar(x, c.G.Text(nil))
	rule := g.GetRule(c.Rule)
	for _, s := range c.In {
		text := []rune(s)
		m := NewModel(c.G, s, modelBudget*6)
		want := m.EvalEmbed(c.Rule)
		what := fmt.Sprintf("EvalEmbed of rule %s on %q", c.Rule, s)
		r := g.EvalEmbed(c.Rule, s)
		if r == nil || r.Error != nil || r.Node == nil {
			x.Failf("%s: no node", what)
		}
		if string(r.Node.RuleType) != "embed" || r.Node.RuleName != c.Rule {
			x.Failf("%s: the node is %s %s", what, r.Node.RuleType, r.Node.RuleName)
		}
		kids := r.Node.ChildNodes
		// at each place, what the rule does there
		at, matches, free := 0, 0, 0
		for i, k := range kids {
			if k.RuleType == xbnf.TypeText {
				if k.RuleName != "_" || len(k.Chars) == 0 || len(k.ChildNodes) > 0 {
					x.Failf("%s: free-text child %d is %s", what, i, dump(k))
				}
				if i > 0 && kids[i-1].RuleType == xbnf.TypeText {
					x.Failf("%s: two free-text children next to each other: %s", what, dump(r.Node))
				}
				if at+len(k.Chars) > len(text) || string(text[at:at+len(k.Chars)]) != string(k.Chars) {
					x.Failf("%s: child %d is the free text %q, at char %d is %q", what, i, string(k.Chars), at, string(text[at:]))
				}
				for j := range k.Chars {
					e := rule.Eval(g, streamAt(text, at+j), xbnf.NOT_SKIP)
					if e.Node != nil && endOf(x, e) > 0 {
						x.Failf("%s: char %d is in the free text %q, but the rule matches %d chars there", what, at+j, string(k.Chars), endOf(x, e))
					}
				}
				at += len(k.Chars)
				free++
				continue
			}
			e := rule.Eval(g, streamAt(text, at), xbnf.NOT_SKIP)
			if e.Node == nil || endOf(x, e) == 0 {
				x.Failf("%s: child %d is %s, but the rule doesn't match at char %d", what, i, dump(k), at)
			}
			if a, b := dump(k), dump(e.Node); a != b {
				x.Failf("%s: child %d is\n%s\nbut at char %d the rule gives\n%s", what, i, a, at, b)
			}
			at += endOf(x, e)
			matches++
		}
		if at != len(text) {
			x.Failf("%s: the children make up %d chars of %d: %s", what, at, len(text), dump(r.Node))
		}
		x.NonTrivial(matches > 0 && free > 0)
		x.ClassIf(matches > 0, "matched")
		x.ClassIf(matches > 1, "several matches")
		x.ClassIf(free > 0, "free text")
		x.ClassIf(len(text) > 300, "large: text")
		x.ClassIf(matches > 0 && len(kids) > 0 && kids[0].RuleType == xbnf.TypeText, "free text first")
		x.ClassIf(matches > 1 && free == 0, "only matches")
		// and the model
		if len(kids) != len(want) {
			x.Failf("%s: %d children, want %d: %s", what, len(kids), len(want), dump(r.Node))
		}
		for i, w := range want {
			if (w.Node == nil) != (kids[i].RuleType == xbnf.TypeText) {
				x.Failf("%s: child %d is %s", what, i, dump(kids[i]))
			}
			if w.Node == nil {
				if string(kids[i].Chars) != string(w.Text) {
					x.Failf("%s: child %d is %q, want %q", what, i, string(kids[i].Chars), string(w.Text))
				}
			} else if d := diffTree(kids[i], w.Node, m.in, mShape, fmt.Sprintf("child %d", i)); d != "" {
				x.Failf("%s: %s", what, d)
			}
		}
	}
	for _, n := range nearNames(c.G, c.Rule) {
		if r := g.EvalEmbed(n, c.In[0]); r == nil || r.Error == nil || r.Node != nil || !strings.Contains(r.Error.Error(), n) {
			x.Failf("EvalEmbed of the undefined rule %s: %s", n, resultString(r))
		}
	}
	r := g.EvalEmbed("no_such_rule", c.In[0])
	if r == nil || r.Error == nil || r.Node != nil || !strings.Contains(r.Error.Error(), "no_such_rule") {
		x.Failf("EvalEmbed of an undefined rule: %s", resultString(r))
	}
}
