package main

import (
	"fmt"
	"strings"
	"unicode"
)

// Expr is the abstract syntax of one xbnf rule definition. It is the harness's own representation: the
// text handed to the code under test is printed from it, and the reference model interprets it directly.
type Expr struct {
	K      string    `json:"k"`            // char range chars string eof ref opt rep group cat choice block
	Ann    string    `json:"a,omitempty"`  // annotation symbols, a subset of "$~#"
	T      string    `json:"t,omitempty"`  // text of chars/string, name of ref
	Lo     rune      `json:"lo,omitempty"` // char, range
	Hi     rune      `json:"hi,omitempty"` // range
	Kids   []*Expr   `json:"kids,omitempty"`
	Groups [][]*Expr `json:"g,omitempty"` // choice: ordered groups of unordered alternatives
	Min    int       `json:"min,omitempty"`
	Max    int       `json:"max,omitempty"` // 0 is unlimited
	Open   *Expr     `json:"open,omitempty"`
	Esc    *Expr     `json:"esc,omitempty"`
	Ex     []*Expr   `json:"ex,omitempty"`
	Close  *Expr     `json:"close,omitempty"`
	VC     bool      `json:"vc,omitempty"` // !> close
}

type Rule struct {
	Name string `json:"n"`
	E    *Expr  `json:"e"`
}

type Gram struct {
	Rules []Rule `json:"rules"`
}

func (g *Gram) find(name string) *Expr {
	for i := range g.Rules {
		if g.Rules[i].Name == name {
			return g.Rules[i].E
		}
	}
	return nil
}

// children calls f for each direct child
func (e *Expr) children(f func(*Expr)) {
	for _, k := range e.Kids {
		f(k)
	}
	for _, gr := range e.Groups {
		for _, k := range gr {
			f(k)
		}
	}
	if e.Open != nil {
		f(e.Open)
	}
	if e.Esc != nil {
		f(e.Esc)
	}
	for _, k := range e.Ex {
		f(k)
	}
	if e.Close != nil {
		f(e.Close)
	}
}

func (e *Expr) walk(f func(*Expr)) {
	f(e)
	e.children(func(k *Expr) { k.walk(f) })
}

func (e *Expr) clone() *Expr {
	if e == nil {
		return nil
	}
	c := *e
	c.Kids = nil
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	c.Groups = nil
	for _, gr := range e.Groups {
		var n []*Expr
		for _, k := range gr {
			n = append(n, k.clone())
		}
		c.Groups = append(c.Groups, n)
	}
	c.Open, c.Esc, c.Close = e.Open.clone(), e.Esc.clone(), e.Close.clone()
	c.Ex = nil
	for _, k := range e.Ex {
		c.Ex = append(c.Ex, k.clone())
	}
	return &c
}

func (g *Gram) clone() *Gram {
	c := &Gram{}
	for _, r := range g.Rules {
		c.Rules = append(c.Rules, Rule{r.Name, r.E.clone()})
	}
	return c
}

func (g *Gram) walk(f func(*Expr)) {
	for _, r := range g.Rules {
		r.E.walk(f)
	}
}

func (g *Gram) has(kind string) bool {
	found := false
	g.walk(func(e *Expr) {
		if e.K == kind {
			found = true
		}
	})
	return found
}

// roots returns names of the rules that no rule references
func (g *Gram) roots() []string {
	used := map[string]bool{}
	g.walk(func(e *Expr) {
		if e.K == "ref" {
			used[e.T] = true
		}
	})
	var out []string
	for _, r := range g.Rules {
		if !used[r.Name] {
			out = append(out, r.Name)
		}
	}
	return out
}

// Layout is a stream of small choices that vary how the same definition is written down: spacing,
// escapes, comments. An exhausted (or empty) stream always chooses 0, the canonical form.
type Layout struct {
	d []byte
	i int
	h uint64

	lines bool // a definition may go on for several lines
}

// spaceForms are spaces other than blanks and tabs
var spaceForms = []string{"\v", "\f", "\r", " \r ", "\u0085", "\u00a0", "\u1680", "\u2003\u2028", " \u3000", "\u2029\t", "\u202f", "\u205f", "\u2000\u200a",
	"\u3000", "\u2001", "\u2002", "\u2003", "\u2004", "\u2005", "\u2006", "\u2007", "\u2008", "\u2009", "\u200a", "\u2028", "\u3000 "}

// endless as the last byte of a stream means that it goes on, with pseudo-random choices
const endless = 0xFF

func (l *Layout) pick(n int) int {
	if l == nil || len(l.d) == 0 {
		return 0
	}
	if last := len(l.d) - 1; l.i >= last && l.d[last] == endless {
		if l.i == last {
			l.i++
			l.h = 14695981039346656037
			for _, b := range l.d {
				l.h = (l.h ^ uint64(b)) * 1099511628211
			}
		}
		l.h = l.h*6364136223846793005 + 1442695040888963407
		return int(l.h>>33) % n
	}
	if l.i >= len(l.d) {
		return 0
	}
	v := int(l.d[l.i]) % n
	l.i++
	return v
}

// sp is an optional space, canonical is canon
func (l *Layout) sp(canon string) string {
	switch l.pick(6) {
	case 3:
		return ""
	case 4:
		return "  "
	case 5:
		return "\t"
	case 2:
		if l.lines && l.pick(3) == 2 {
			return []string{" ", "", "\t", "  "}[l.pick(4)] + l.comment() + []string{"\n", "\n\t"}[l.pick(2)]
		}
		return l.space()
	}
	return canon
}

// space is at least one space of any kind
func (l *Layout) space() string {
	switch {
	case l.pick(250) == 249:
		return strings.Repeat(" \t", 30<<l.pick(7))
	case l.pick(4) == 3:
		return spaceForms[l.pick(len(spaceForms))]
	case l != nil && l.lines && l.pick(2) == 1:
		return []string{"\n", "\r\n", " \n\n\t"}[l.pick(3)]
	}
	return " \t "
}

var comments = []string{" 'x' = {", "", " \"", " a comment = 'x' | \"y\"", " \" ' = {", "/", " https://x.org/?a=b", " one\rtwo", "\r", " \u0085x \u2028 y", " \\", "*/ 'a'",
	" 中文 \U0001F600", " r = 'z' // s = 'y'", "\t\v\f", " \x00\x1b", " }>)]", " EOF", " ----", "= 'a'", " \ufeff"}

// comment is one up to the end of its line
func (l *Layout) comment() string { return "//" + comments[l.pick(len(comments))] }

// blanks is at least one space (the separator inside of a block definition)
func (l *Layout) blanks() string {
	switch l.pick(4) {
	case 3:
		return "   "
	case 2:
		return l.space()
	}
	return " "
}

func bmp(c rune) bool { return c >= 0 && c <= 0xFFFF && !(c >= 0xD800 && c <= 0xDFFF) }

func hexOf(c rune, l *Layout) string {
	if l.pick(3) == 2 {
		return fmt.Sprintf("\\u%04x", c)
	}
	return fmt.Sprintf("\\u%04X", c)
}

// quoted writes text in between quotes, choosing among the ways a char can be written
func quoted(text string, q rune, l *Layout) string {
	var b strings.Builder
	b.WriteRune(q)
	for _, c := range text {
		form := l.pick(8)
		switch {
		case (form == 6 || c == '\n') && bmp(c):
			b.WriteString(hexOf(c, l))
		case c == q || c == '\\' || (form == 7 && c != 'u' && c != '\n'):
			b.WriteRune('\\')
			b.WriteRune(c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteRune(q)
	return b.String()
}

func charForm(c rune, l *Layout) string {
	form := l.pick(6)
	if bmp(c) {
		switch form {
		case 4:
			return hexOf(c, l)
		case 5:
			return "'" + hexOf(c, l) + "'"
		}
		if unicode.IsSpace(c) && c != ' ' && c != '\t' {
			return hexOf(c, l)
		}
	}
	return quoted(string(c), '\'', l)
}

func annForm(ann string, l *Layout) string {
	if ann == "" {
		return ""
	}
	r := []rune(ann)
	if len(r) > 1 {
		k := l.pick(len(r))
		r = append(r[k:], r[:k]...)
	}
	var b strings.Builder
	for _, c := range r {
		b.WriteRune(c)
		if l.pick(8) == 7 {
			b.WriteRune(c) // written twice means the same
		}
		if l.pick(8) == 7 {
			b.WriteString(l.sp(" "))
		}
	}
	return b.String()
}

func repSpec(min, max int, l *Layout) string {
	if max == 0 {
		switch {
		case min == 0:
			return []string{"", "*", "<0,0>", "<0,>", "<>", "<,>", "<0>", "<,0>", "<000>", "<0,00>"}[l.pick(10)]
		case min == 1:
			return []string{"+", "<1>", "<1,>", "<1,0>", "< 1 , 0 >", "<01>", "<001,00>"}[l.pick(7)]
		}
		return []string{"<%d,0>", "<%d>", "<%d,>", "<  %d , >", "<\r%d\u00a0,\v>", "<0%d>", "<00%d,0>"}[l.pick(7)]
	}
	if min == 0 {
		return []string{"<0,%d>", "<,%d>", "< 0,\t%d>", "<,0%d>", "<00,000%d>"}[l.pick(5)]
	}
	return []string{"<%d,%d>", "< %d , %d >", "<%d, %d>", "<\u2003%d\r,\f%d\u0085>", "<0%d,%d>", "<%d,0%d>", "<00%d,00%d>"}[l.pick(7)]
}

func fmtSpec(min, max int, l *Layout) string {
	s := repSpec(min, max, l)
	switch strings.Count(s, "%d") {
	case 0:
		return s
	case 1:
		if max == 0 {
			return fmt.Sprintf(s, min)
		}
		return fmt.Sprintf(s, max)
	}
	return fmt.Sprintf(s, min, max)
}

// Print writes the definition of e
func (e *Expr) Print(l *Layout) string {
	var b strings.Builder
	b.WriteString(annForm(e.Ann, l))
	switch e.K {
	case "char":
		b.WriteString(charForm(e.Lo, l))
	case "range":
		b.WriteString(charForm(e.Lo, l))
		b.WriteString("-")
		b.WriteString(charForm(e.Hi, l))
	case "chars":
		b.WriteString(quoted(e.T, '\'', l))
	case "string":
		b.WriteString(quoted(e.T, '"', l))
	case "eof":
		b.WriteString("EOF")
	case "ref":
		b.WriteString(e.T)
	case "opt":
		b.WriteString("[" + l.sp(" ") + e.Kids[0].Print(l) + l.sp(" ") + "]")
	case "rep":
		b.WriteString("{" + l.sp(" ") + e.Kids[0].Print(l) + l.sp(" ") + "}" + fmtSpec(e.Min, e.Max, l))
	case "group":
		b.WriteString("(" + l.sp(" ") + e.Kids[0].Print(l) + l.sp(" ") + ")")
	case "cat":
		prev := ""
		for i, k := range e.Kids {
			s := k.Print(l)
			if i > 0 {
				sep := l.sp(" ")
				if sep == "" && !glueable(prev, s) {
					sep = " "
				}
				b.WriteString(sep)
			}
			b.WriteString(s)
			prev = s
		}
	case "choice":
		for i, gr := range e.Groups {
			if i > 0 {
				b.WriteString(l.sp(" ") + ">" + l.sp(" "))
			}
			for j, k := range gr {
				if j > 0 {
					b.WriteString(l.sp(" ") + "|" + l.sp(" "))
				}
				b.WriteString(k.Print(l))
			}
		}
	case "block":
		b.WriteString("<")
		if l.pick(4) == 3 {
			b.WriteString(" ")
		}
		b.WriteString(e.Open.part(l, false, false))
		b.WriteString(l.blanks())
		if e.Esc != nil {
			b.WriteString(e.Esc.part(l, false, false))
			b.WriteString(l.blanks())
		}
		for _, x := range e.Ex {
			b.WriteString("^")
			if l.pick(6) == 5 {
				b.WriteString(" ")
			}
			b.WriteString(x.part(l, false, false))
			b.WriteString(l.blanks())
		}
		if e.spacedClose() && l.pick(2) == 0 {
			b.WriteString(e.Close.Print(l)) // no space ends the close rule
		} else {
			b.WriteString(e.Close.part(l, true, e.VC))
		}
		if e.VC {
			b.WriteString([]string{" !", "!", " ! "}[l.pick(3)])
		} else if l.pick(4) == 3 {
			b.WriteString(" ")
		}
		b.WriteString(">")
	default:
		panic("unknown kind " + e.K)
	}
	return b.String()
}

// spacedClose tells if the close rule of a block may be written with spaces
func (e *Expr) spacedClose() bool {
	if e.Close.K != "cat" && e.Close.K != "choice" {
		return true
	}
	return (e.Esc != nil || len(e.Ex) > 0) && e.Close.tight(true, e.VC)
}

// part writes a part of a block, which a space ends: with no space outside of brackets, or as a group
func (e *Expr) part(l *Layout, last, vc bool) string {
	switch e.K {
	case "cat", "choice":
		if !e.tight(last, vc) {
			return "( " + e.Print(l) + " )"
		}
	default:
		return e.Print(l)
	}
	var b strings.Builder
	if e.K == "cat" {
		for _, k := range e.Kids {
			s := k.part(l, last, vc)
			b.WriteString(s)
			if k.K == "choice" {
				b.WriteString(l.blanks()) // a choice goes on, so this ends nothing
			} else if k.K == "rep" && strings.HasSuffix(s, "}") {
				b.WriteString("*")
			}
		}
		return b.String()
	}
	for i, gr := range e.Groups {
		for j, k := range gr {
			switch {
			case j > 0 && i+j > 1:
				b.WriteString(l.sp("") + "|" + l.sp(""))
			case j > 0:
				b.WriteString("|" + l.sp(""))
			case i > 0:
				b.WriteString(l.sp("") + ">" + l.sp(""))
			}
			b.WriteString(k.Print(l))
		}
	}
	return b.String()
}

// tight tells if a sequence or choice can be a part of a block with no brackets around, last if it's the
// close rule, vc if ! follows
func (e *Expr) tight(last, vc bool) bool {
	atom := func(e *Expr) bool { return e.K != "cat" && e.K != "choice" }
	switch e.K {
	case "cat":
		for i, k := range e.Kids {
			end := i == len(e.Kids)-1
			switch {
			case k.K == "choice":
				if !k.tight(last || !end, vc || !end) {
					return false
				}
			case !atom(k):
				return false
			case !end && (k.K == "ref" || k.K == "eof") && word(e.Kids[i+1]):
				return false
			}
		}
		return true
	case "choice":
		for _, gr := range e.Groups {
			for _, k := range gr {
				if !atom(k) {
					return false
				}
			}
		}
		return last && vc && len(e.Groups[0]) > 1
	}
	return true
}

// word tells if a definition begins with a name
func word(e *Expr) bool {
	if e.K == "choice" {
		return word(e.Groups[0][0])
	}
	return (e.K == "ref" || e.K == "eof") && e.Ann == ""
}

// glueable tells if two definitions can be written next to each other with no space
func glueable(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	return strings.ContainsRune("'\")]", rune(a[len(a)-1])) && strings.ContainsRune("'\"([{", rune(b[0]))
}

// Defs are the definitions of the rules one by one, each of one or more lines
func (g *Gram) Defs(l *Layout) (defs []string) {
	l.lines = true
	for _, r := range g.Rules {
		defs = append(defs, r.Name+l.space()+"="+l.sp(" ")+r.E.Print(l)+l.sp(""))
	}
	return defs
}

// Text prints the whole grammar, one rule per line
func (g *Gram) Text(l *Layout) string {
	var b strings.Builder
	for _, r := range g.Rules {
		switch l.pick(12) {
		case 10:
			b.WriteString("\n  \n")
		case 11:
			b.WriteString([]string{"", "", " ", "\t"}[l.pick(4)] + l.comment() + "\n")
		case 9:
			b.WriteString("\t  ")
		}
		b.WriteString(r.Name + l.sp(" ") + "=" + l.sp(" ") + r.E.Print(l))
		switch l.pick(10) {
		case 8:
			b.WriteString(" " + l.comment())
		case 9:
			b.WriteString("\t//")
		case 7:
			b.WriteString(" \t")
		}
		if l.pick(8) == 7 {
			b.WriteString("\r")
		}
		b.WriteString("\n")
	}
	return b.String()
}
