package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C23 errors

func init() {
	w := weights(map[string]int{"choice": 9, "rep": 5, "cat": 9, "block": 4, "opt": 2, "eof": 2})
	register(&Check{
		ID: "C23", Quick: 400000, Thorough: 6000000,
		Rule: "a case is a grammar, possibly with references to undefined rules, and 1-4 texts that mostly don't fit, evaluated by rule at an offset of a stream with each whitespace flag, and as a whole; non-trivial: an evaluation failed after at least one char, or in a choice of several alternatives",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.W = w
			p = drawProf(t, p)
			c := drawEval(t, p, 4)
			for i, s := range c.In { // something that doesn't fit, mostly late
				if r := []rune(s); len(r) > 0 && pick(t, 3) > 0 {
					k := len(r) - 1 - pick(t, len(r))/2
					switch pick(t, 3) {
					case 0:
						r = r[:k]
					case 1:
						r[k] = '?'
					case 2:
						r = append(r[:k:k], append([]rune("?"), r[k:]...)...)
					}
					c.In[i] = string(r)
				}
			}
			if pick(t, 4) == 0 {
				c.N = pick(t, 6)
			}
			if pick(t, 250) == 249 {
				c.M = []int{255, 4096, 32767, 65535}[pick(t, 4)] + pick(t, 3)
			}
			c.Flag = []int{flagS, flagNS, flagN}[pick(t, 3)]
			if pick(t, 10) == 0 {
				undefine(t, c.G)
			}
			return c
		},
		Run: runC23,
	})
}

var errAt = regexp.MustCompile(`(?s) at L(\d+):(\d+)$`)

// placeOf is the line and column of a char
func placeOf(text []rune, i int) (line, col int) {
	line, col = 1, 1
	for _, r := range text[:i] {
		col++
		if r == '\n' {
			line, col = line+1, 1
		}
	}
	return line, col
}

// checkWhy checks the text of an error against what it may say
func checkWhy(x *Ctx, what string, msg string, e *MErr, text []rune) {
	if strings.TrimSpace(msg) == "" {
		x.Failf("%s: the error has no text", what)
	}
	if strings.Contains(msg, "<nil>") {
		x.Failf("%s: the error says nothing: %s", what, msg)
	}
	var may []string
	for _, w := range e.Why {
		switch w.Kind {
		case "any":
			return
		case "ambiguity": // the text of the node follows
			if strings.Contains(msg, "ambigu") {
				return
			}
			may = append(may, "ambiguity")
		case "at":
			for i := w.From; i <= w.To && i < len(text); i++ {
				l, c := placeOf(text, i)
				may = append(may, fmt.Sprintf("at L%d:%d", l, c))
			}
		default:
			may = append(may, w.Kind)
		}
	}
	got := strings.TrimRight(msg, "0123456789")
	checkMissing(x, what, msg, e)
	for _, s := range may {
		if strings.HasPrefix(s, "at L") {
			if m := errAt.FindString(msg); m == " "+s {
				x.Class("error names a place")
				return
			}
		} else if strings.HasSuffix(msg, s) || strings.HasSuffix(strings.TrimRight(got, " "), s) {
			if strings.HasSuffix(s, "not allowed in text block") {
				s = "not allowed in text block"
				x.ClassIf(len(may) > 1, "several excludes match")
			}
			x.Class("error is " + s)
			return
		}
	}
	x.Failf("%s: the error is %q, want one that ends with one of %q", what, msg, may)
}

// checkMissing checks that an error that ends with the place of something names what is missing there: a terminal by
// its text or the name of its rule, an undefined rule by its name
func checkMissing(x *Ctx, what, msg string, e *MErr) {
	var names []string
	for _, w := range e.Why {
		k := w.E
		switch {
		case k == nil:
			return // not known of all
		case k.K == "ref":
			if strings.Contains(msg, k.T) {
				x.Class("error names an undefined rule")
				return
			}
			names = append(names, k.T)
		case w.Name != "":
			if strings.Contains(msg, w.Name) {
				x.Class("error names a rule")
				return
			}
			names = append(names, w.Name)
		case k.K == "range":
			if mentions(msg, []rune{k.Lo}) && mentions(msg, []rune{k.Hi}) {
				x.Class("error names a range")
				return
			}
			names = append(names, k.Print(nil))
		default:
			t := []rune(k.T)
			if k.K == "char" {
				t = []rune{k.Lo}
			}
			if mentions(msg, t) {
				x.Class("error names a terminal")
				return
			}
			names = append(names, k.Print(nil))
		}
	}
	if len(names) > 0 {
		x.Failf("%s: the error is %q, which names none of %q", what, msg, names)
	}
}

// mentions tells if a text is in a message, plainly or with escapes
func mentions(msg string, t []rune) bool {
	if strings.Contains(msg, string(t)) {
		return true
	}
	for _, q := range "'\"" {
		var s, u strings.Builder
		for _, c := range t {
			switch {
			case c == q || c == '\\':
				s.WriteRune('\\')
				s.WriteRune(c)
			case unicode.IsControl(c) || c >= 0x80 && !unicode.IsPrint(c):
				fmt.Fprintf(&s, "\\u%04X", c)
			default:
				s.WriteRune(c)
			}
			fmt.Fprintf(&u, "\\u%04X", c)
		}
		if strings.Contains(msg, s.String()) || strings.Contains(msg, u.String()) {
			return true
		}
	}
	q := fmt.Sprintf("%q", string(t))
	return strings.Contains(msg, q[1:len(q)-1])
}

func runC23(c *Case, x *Ctx) {
	g := xbnf.NewGrammar()
	for _, r := range c.G.Rules {
		if _, err := g.AddRule(r.Name + " = " + r.E.Print(nil)); err != nil {
			x.Failf("valid rule rejected: %v: %s", err, r.E.Print(nil))
		}
	}
	roots := c.G.roots()
	for _, s := range c.In {
		text := []rune(s)
		off := c.N
		if off > len(text) {
			off = len(text)
		}
		m := NewModel(c.G, s, modelBudget)
		want := m.EvalRule(c.Rule, off, c.Flag)
		what := fmt.Sprintf("rule %s at %d of %q (flag %d)", c.Rule, off, s, c.Flag)
		r := g.GetRule(c.Rule).Eval(g, streamAt(text, off), c.Flag)
		compareEval(x, what, r, want, off, m.in, 0)
		if c.M > 0 { // far from the start of the text
			x.Class("far from the start of the text")
			far := g.GetRule(c.Rule).Eval(g, streamAt([]rune(strings.Repeat("a", c.M)+s), c.M+off), c.Flag)
			if (far.Node == nil) != (r.Node == nil) || far.Node == nil && (far.ErrIdx-c.M != r.ErrIdx || far.Error == nil) {
				x.Failf("%s: %v at %d\nwith %d more chars in front %v at %d", what, r.Error, r.ErrIdx, c.M, far.Error, far.ErrIdx)
			}
		}
		if !want.OK {
			x.Class("failed")
			x.NonTrivial(want.Err.Lo > off || len(want.Err.Why) > 1)
			x.ClassIf(want.Err.Lo > off, "failed after some chars")
			x.ClassIf(len(want.Err.Why) > 1, "several alternatives failed as far")
			hi := off + len(r.CharsRead)
			if hi > want.Err.Hi {
				hi = want.Err.Hi
			}
			if r.ErrIdx < want.Err.Lo || r.ErrIdx > hi {
				x.Failf("%s: the error is at %d, want it from %d to %d: %v", what, r.ErrIdx, want.Err.Lo, hi, r.Error)
			}
			checkWhy(x, what, r.Error.Error(), want.Err, m.in)
		}
		// a whole text
		if hasUndef(c.G) != "" || len(roots) == 0 {
			x.Class("undefined reference")
			continue
		}
		if err := g.Validate(); err != nil {
			x.Failf("valid grammar rejected: %v", err)
		}
		m = NewModel(c.G, s, modelBudget)
		all := m.EvalRaw(roots)
		if all.OK || all.Empty {
			continue
		}
		ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(s))
		if ast != nil || err == nil {
			x.Failf("Eval of %q: tree %v, error %v", s, ast != nil, err)
		}
		msg := err.Error()
		_, err2 := g.Eval(xbnf.NewCharstreamFromString(s), xbnf.LevelDataOnly)
		if err2 == nil || (len(roots) == 1 && err2.Error() != msg) {
			x.Failf("Eval of %q: the error is %v, at another level %v", s, err, err2)
		}
		x.Class("whole text failed")
		what = fmt.Sprintf("Eval of %q, which fails at %d", s, all.At)
		if all.Amb || all.Zero {
			// it names the rules that are to blame
			n := 0
			for _, k := range all.Tied {
				if k.Name != "" && strings.Contains(msg, k.Name) {
					n++
				}
			}
			if n == 0 {
				x.Failf("%s: the error names none of the rules that match: %s", what, msg)
			}
			x.ClassIf(all.Amb, "ambiguous roots")
			if all.Amb && !strings.Contains(strings.ToLower(msg), "ambigu") {
				x.Failf("%s: an ambiguity is reported as: %s", what, msg)
			}
			continue
		}
		// it has the error of each root rule at that place
		for _, name := range roots {
			r := g.GetRule(name).Eval(g, streamAt(text, all.At), all.Flag)
			if r.Node != nil || r.Error == nil {
				x.Failf("%s: rule %s: matched=%v, error %v", what, name, r.Node != nil, r.Error)
			}
			checkWhy(x, fmt.Sprintf("rule %s at %d of %q (flag %d)", name, all.At, s, all.Flag), r.Error.Error(), all.Errs[name], m.in)
			if !strings.Contains(msg, r.Error.Error()) {
				x.Failf("%s: the error lacks that of rule %s\n%s\nin\n%s", what, name, r.Error, msg)
			}
			if k := c.G.find(name).K; k != "eof" && k != "ref" && !strings.Contains(msg, name) {
				x.Failf("%s: the error doesn't name rule %s: %s", what, name, msg)
			}
		}
	}
}
