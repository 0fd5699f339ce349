package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C26 rewriting a grammar

func init() {
	w := weights(map[string]int{"choice": 7, "rep": 5, "cat": 8, "block": 3, "opt": 5, "ref": 8, "chars": 6})
	register(&Check{
		ID: "C26", Quick: 300000, Thorough: 5000000,
		Rule: "a case is a grammar, 1-3 texts and 1-6 places in it with what is done there: put into a group, made a rule of its own, a reference replaced by the definition, repeated exactly once, option for at most one repetition and back, an option in an option, a repetition written out as copies and options in options, later ordered alternatives put into a group, alternatives tried again last, a char sequence split in two; non-trivial: a text matches and something was done to what the rule uses",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W, p.Ann = w, 2
			p = drawProf(t, p)
			c := drawEval(t, p, 3)
			c.L2 = drawLayout(t, 24)
			c.N = 1 + pick(t, 6)
			return c
		},
		Run: runC26,
	})
}

// anOption says whether a match of e may be the one of an option
func anOption(g *Gram, e *Expr, deep int) bool {
	switch {
	case deep > 20:
		return true
	case e.K == "opt":
		return true
	case e.K == "ref" && g.find(e.T) != nil:
		return anOption(g, g.find(e.T), deep+1)
	case e.K == "choice":
		for _, k := range e.Groups {
			if len(k) == 1 && anOption(g, k[0], deep+1) {
				return true
			}
		}
	}
	return false
}

// rewrite changes a grammar at one place to another one that means the same, and says how
func rewrite(g *Gram, l *Layout, n int) (how string) {
	var at []*Expr
	g.walk(func(e *Expr) { at = append(at, e) })
	e := at[l.pick(len(at))]
	old := e.clone()
	switch l.pick(12) {
	case 0:
		*e = Expr{K: "group", Kids: []*Expr{old}}
		if anOption(g, old, 0) {
			return "option in a group"
		}
		return "group"
	case 1:
		name := fmt.Sprintf("%s%d", []string{"own", "A", "z_"}[l.pick(3)], n)
		if g.find(name) != nil {
			return ""
		}
		*e = Expr{K: "ref", T: name}
		i := l.pick(len(g.Rules) + 1)
		g.Rules = append(g.Rules[:i:i], append([]Rule{{name, old}}, g.Rules[i:]...)...)
		return "rule of its own"
	case 2, 3:
		for k := 0; k < 8 && (e.K != "ref" || g.find(e.T) == nil); k++ {
			e = at[l.pick(len(at))]
		}
		if e.K != "ref" || g.find(e.T) == nil {
			return ""
		}
		old = e.clone()
		*e = Expr{K: "group", Ann: e.Ann, Kids: []*Expr{g.find(old.T).clone()}}
		if anOption(g, old, 0) {
			return "option inlined"
		}
		return "inlined"
	case 4:
		*e = Expr{K: "rep", Kids: []*Expr{old}, Min: 1, Max: 1}
		return "once"
	case 5:
		switch {
		case e.K == "opt":
			e.K, e.Min, e.Max = "rep", 0, 1
			return "repetition for an option"
		case e.K == "rep" && e.Min == 0 && e.Max == 1:
			e.K, e.Max = "opt", 0
			return "option for a repetition"
		}
	case 6:
		if e.K == "opt" {
			*e = Expr{K: "opt", Kids: []*Expr{old}}
			return "option in an option"
		}
	case 7:
		if e.K == "choice" && len(e.Groups) > 1 {
			rest := &Expr{K: "choice", Groups: old.Groups[1:]}
			if len(rest.Groups) == 1 && len(rest.Groups[0]) == 1 {
				rest = rest.Groups[0][0]
			}
			e.Groups = [][]*Expr{old.Groups[0], {{K: "group", Kids: []*Expr{rest}}}}
			return "later alternatives grouped"
		}
	case 8:
		if e.K == "choice" {
			e.Groups = append(e.Groups[:len(e.Groups):len(e.Groups)], old.Groups[l.pick(len(old.Groups))])
			return "alternatives tried again"
		}
	case 9:
		if r := []rune(e.T); e.K == "chars" && len(r) > 1 && !hasSpace(e.T) {
			k := 1 + l.pick(len(r)-1)
			*e = Expr{K: "group", Ann: e.Ann, Kids: []*Expr{{K: "cat", Kids: []*Expr{{K: "chars", T: string(r[:k])}, {K: "chars", T: string(r[k:])}}}}}
			return "char sequence split"
		}
	case 10, 11:
		for k := 0; k < 8 && !(e.K == "rep" && e.Max <= 4); k++ {
			e = at[l.pick(len(at))]
		}
		if e.K == "rep" && e.Max <= 4 && e.Min <= 4 && len(e.Kids) == 1 && size(e.Kids[0]) < 12 {
			return unroll(e)
		}
	}
	return ""
}

func size(e *Expr) (n int) {
	e.walk(func(*Expr) { n++ })
	return n
}

// unroll writes a repetition out: as many copies as there have to be, then options in options for those there
// may be, or a repetition for any number of them
func unroll(e *Expr) string {
	kid := e.Kids[0]
	var rest *Expr
	if e.Max == 0 {
		rest = &Expr{K: "rep", Kids: []*Expr{kid.clone()}}
	}
	for i := e.Min; i < e.Max; i++ {
		in := kid.clone()
		if rest != nil {
			in = &Expr{K: "cat", Kids: []*Expr{{K: "group", Kids: []*Expr{in}}, rest}}
		}
		rest = &Expr{K: "opt", Kids: []*Expr{in}}
	}
	var all []*Expr
	for i := 0; i < e.Min; i++ {
		all = append(all, &Expr{K: "group", Kids: []*Expr{kid.clone()}})
	}
	if rest != nil {
		all = append(all, rest)
	}
	if len(all) == 0 || e.Min == 0 && e.Max == 0 {
		return ""
	}
	in := all[0]
	if len(all) > 1 {
		in = &Expr{K: "cat", Kids: all}
	}
	*e = Expr{K: "group", Ann: e.Ann, Kids: []*Expr{in}}
	if rest == nil {
		return "repetition written out"
	}
	return "repetition written out with options"
}

func hasSpace(s string) bool { return strings.IndexFunc(s, wsp) >= 0 }

// leafList is the leaves with text of a tree, each with its position
func leafList(n *xbnf.Node) (all string, text string) {
	var b strings.Builder
	if n == nil {
		return "", ""
	}
	for _, w := range leavesOf([]*MNode{fromReal(n)}) {
		if len(w.Chars) > 0 && !isEOFChars(w.Chars) {
			fmt.Fprintf(&b, "%q@%d:%d ", string(w.Chars), w.Off>>20, w.Off&(1<<20-1))
			text += string(w.Chars)
		}
	}
	return b.String(), text
}

func runC26(c *Case, x *Ctx) {
	g := mustGrammar(x, c.G.Text(nil))
	l := &Layout{d: c.L2}
	other := c.G.clone()
	var how []string
	split, flat, sticky := false, false, true
	for i := 0; i < c.N; i++ {
		if h := rewrite(other, l, i); h != "" {
			how = append(how, h)
			x.Class(h)
			split = split || h == "char sequence split"
			sticky = sticky && (h == "repetition written out" || h == "once" || h == "group" || h == "rule of its own" || h == "inlined")
			flat = flat || h == "once" || strings.HasPrefix(h, "repetition written out") || strings.Contains(h, "option")
		}
	}
	if len(how) == 0 {
		x.Class("nothing done")
		return
	}
	g2 := mustGrammar(x, other.Text(nil))
	for _, text := range c.In {
		if flat { // only an option that isn't found leaves the hint about spaces to what follows
			text = strings.Map(func(r rune) rune {
				if wsp(r) {
					return -1
				}
				return r
			}, text)
		}
		for _, flag := range []int{flagS, flagNS, flagN} {
			NewModel(c.G, text, modelBudget).EvalRule(c.Rule, 0, flag)     // budget
			NewModel(other, text, 2*modelBudget).EvalRule(c.Rule, 0, flag) // budget
			r := g.GetRule(c.Rule).Eval(g, xbnf.NewCharstreamFromString(text), flag)
			r2 := g2.GetRule(c.Rule).Eval(g2, xbnf.NewCharstreamFromString(text), flag)
			str := func(r *xbnf.EvalResult) string {
				all, txt := leafList(r.Node)
				if split { // a part of a char sequence reads its chars on its own, wherever the whole would stop
					return fmt.Sprintf("matched=%v used=%d leaves %q", r.Node != nil, endOf(x, r), txt)
				}
				if flat { // the hint decides what is read in vain
					return fmt.Sprintf("matched=%v used=%d sticky=%v leaves %s", r.Node != nil, endOf(x, r), sticky && r.Sticky, all)
				}
				return fmt.Sprintf("matched=%v used=%d read=%q sticky=%v leaves %s", r.Node != nil, endOf(x, r), string(r.CharsRead), r.Sticky, all)
			}
			a, b := str(r), str(r2)
			if a != b {
				x.Failf("rule %s on %q (flag %d): %s\nof\n%s (%s): %s", c.Rule, text, flag, a, other.Text(nil), strings.Join(how, ", "), b)
			}
			x.ClassIf(r.Node != nil, "matched")
			x.NonTrivial(r.Node != nil)
		}
	}
}
