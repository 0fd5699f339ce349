package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// refParser reads definitions, as a reference for what is a definition and what it means
type refParser struct {
	r []rune
	i int
}

type badDef string

func (p *refParser) bad(f string, a ...any) { panic(badDef(fmt.Sprintf(f, a...))) }

func (p *refParser) peek() rune {
	if p.i < len(p.r) {
		return p.r[p.i]
	}
	return -1
}

func (p *refParser) next() rune {
	c := p.peek()
	p.i++
	return c
}

func (p *refParser) spaces() {
	for p.peek() >= 0 && wsp(p.peek()) {
		p.i++
	}
}

func (p *refParser) comment() {
	p.expect('/')
	p.expect('/')
	for p.peek() != '\n' && p.peek() >= 0 {
		p.i++
	}
}

// skip skips spaces and comments
func (p *refParser) skip() {
	for p.spaces(); p.peek() == '/'; p.spaces() {
		p.comment()
	}
}

func (p *refParser) expect(c rune) {
	if got := p.next(); got != c {
		p.bad("%q where %q belongs", got, c)
	}
}

// sequence reads rules up to a char of ends (which includes ' ' for any space) or the end of the definition
func (p *refParser) sequence(ends string) *Expr {
	var kids []*Expr
	p.spaces()
	for {
		c := p.peek()
		if c < 0 || strings.ContainsRune(ends, c) || (strings.HasPrefix(ends, " ") && wsp(c)) {
			break
		}
		switch {
		case wsp(c):
			p.spaces()
		case c == '/':
			p.comment()
		case c == '|' || c == '>':
			if len(kids) == 0 {
				p.bad("%q without a rule in front", c)
			}
			kids[len(kids)-1] = p.choice(kids[len(kids)-1])
		default:
			kids = append(kids, p.one())
		}
	}
	switch len(kids) {
	case 0:
		p.bad("no rule")
	case 1:
		return kids[0]
	}
	return &Expr{K: "cat", Kids: kids}
}

func (p *refParser) choice(first *Expr) *Expr {
	e := &Expr{K: "choice", Groups: [][]*Expr{{first}}}
	for {
		p.skip()
		switch p.peek() {
		case '|':
			p.i++
			p.skip()
			k := p.one()
			e.Groups[len(e.Groups)-1] = append(e.Groups[len(e.Groups)-1], k)
		case '>':
			p.i++
			p.skip()
			e.Groups = append(e.Groups, []*Expr{p.one()})
		default:
			return e
		}
	}
}

// one reads a rule that is no sequence or choice, with its annotations
func (p *refParser) one() *Expr {
	ann := map[rune]bool{}
	for strings.ContainsRune("~#$", p.peek()) {
		ann[p.next()] = true
		p.skip()
	}
	var e *Expr
	switch c := p.peek(); {
	case c == '\'':
		e = p.chars()
	case c == '\\':
		p.i++
		e = p.rangeAfter(p.hex())
	case c == '"':
		e = &Expr{K: "string", T: strings.ToValidUTF8(string(p.quoted('"')), "\ufffd")}
	case c == '(' || c == '[' || c == '{':
		p.i++
		kind, end := map[rune]string{'(': "group", '[': "opt", '{': "rep"}[c], map[rune]rune{'(': ')', '[': ']', '{': '}'}[c]
		e = &Expr{K: kind, Kids: []*Expr{p.sequence(string(end))}}
		p.expect(end)
		if c == '{' {
			p.count(e)
		}
	case c == '<':
		e = p.block()
	case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		var b strings.Builder
		for c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteRune(p.next())
			c = p.peek()
		}
		if b.String() == "EOF" {
			e = &Expr{K: "eof"}
		} else {
			e = &Expr{K: "ref", T: b.String()}
		}
	default:
		p.bad("%q can't begin a rule", c)
	}
	for _, c := range "$~#" {
		if ann[c] {
			e.Ann += string(c)
		}
	}
	return e
}

func (p *refParser) hex() rune {
	p.expect('u')
	v := rune(0)
	for k := 0; k < 4; k++ {
		c := p.next()
		if c > 127 || c < 0 {
			p.bad("%q in an escape", c)
		}
		d, err := strconv.ParseUint(string(c), 16, 8)
		if err != nil {
			p.bad("%q in an escape", c)
		}
		v = v<<4 | rune(d)
	}
	return v
}

// escaped reads what is behind a backslash
func (p *refParser) escaped() rune {
	if p.peek() == 'u' {
		return p.hex()
	}
	if p.peek() < 0 {
		p.bad("ends in an escape")
	}
	return p.next()
}

func (p *refParser) quoted(q rune) (text []rune) {
	p.expect(q)
	for {
		switch c := p.next(); c {
		case -1:
			p.bad("quote not closed")
		case q:
			return text
		case '\\':
			text = append(text, p.escaped())
		default:
			text = append(text, c)
		}
	}
}

func (p *refParser) chars() *Expr {
	text := p.quoted('\'')
	switch len(text) {
	case 0:
		p.bad("no chars")
	case 1:
		return p.rangeAfter(text[0])
	}
	return &Expr{K: "chars", T: string(text)}
}

func (p *refParser) rangeAfter(lo rune) *Expr {
	if p.peek() != '-' {
		return &Expr{K: "char", Lo: lo}
	}
	p.i++
	e := &Expr{K: "range", Lo: lo}
	if p.peek() == '\\' {
		p.i++
		e.Hi = p.hex()
		return e
	}
	text := p.quoted('\'')
	if len(text) != 1 {
		p.bad("range to %d chars", len(text))
	}
	e.Hi = text[0]
	return e
}

func (p *refParser) count(e *Expr) {
	switch p.peek() {
	case '*':
		p.i++
	case '+':
		p.i++
		e.Min = 1
	case '<':
		p.i++
		var spec []rune
		for c := p.next(); c != '>'; c = p.next() {
			if c < 0 {
				p.bad("count not closed")
			}
			if !wsp(c) {
				spec = append(spec, c)
			}
		}
		m := regexp.MustCompile(`^([0-9]*)(,([0-9]*))?$`).FindStringSubmatch(string(spec))
		if m == nil {
			p.bad("count %q", string(spec))
		}
		for i, to := range map[int]*int{1: &e.Min, 3: &e.Max} {
			if m[i] != "" {
				v, err := strconv.ParseUint(m[i], 10, 32)
				if err != nil {
					p.bad("count %q", m[i])
				}
				*to = int(v)
			}
		}
		if e.Max != 0 && e.Max < e.Min {
			p.bad("count %q", string(spec))
		}
	}
}

func (p *refParser) block() *Expr {
	p.expect('<')
	e := &Expr{K: "block", Open: p.sequence(" >!")}
	p.spaces()
	if p.peek() != '^' {
		k := p.sequence(" >!")
		p.spaces()
		if p.peek() == '>' || p.peek() == '!' {
			e.Close = k
		} else {
			e.Esc = k
		}
	}
	if e.Close == nil {
		for p.spaces(); p.peek() == '^'; p.spaces() {
			p.i++
			e.Ex = append(e.Ex, p.sequence(" >!"))
		}
		e.Close = p.sequence(">!")
	}
	if p.peek() == '!' {
		p.i++
		e.VC = true
		p.spaces()
	}
	p.expect('>')
	return e
}

// refRule is the meaning of one definition
func refRule(def string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(badDef)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", string(b))
		}
	}()
	p := &refParser{r: []rune(strings.TrimSpace(def))}
	e = p.sequence("")
	if p.peek() >= 0 {
		p.bad("%q left", p.peek())
	}
	return e, nil
}

var refName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

// refGram is the meaning of a text of definitions
func refGram(text string) (*Gram, error) {
	g := &Gram{}
	for i, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "//") {
			continue
		}
		name, def, found := strings.Cut(line, "=")
		name = strings.TrimSpace(name)
		if !found || !refName.MatchString(name) {
			return nil, fmt.Errorf("line %d: no name and =", i+1)
		}
		if g.find(name) != nil {
			return nil, fmt.Errorf("line %d: %s again", i+1, name)
		}
		e, err := refRule(def)
		if err != nil {
			return nil, fmt.Errorf("line %d: %v", i+1, err)
		}
		g.Rules = append(g.Rules, Rule{name, e})
	}
	var err error
	g.walk(func(e *Expr) {
		if e.K == "ref" && g.find(e.T) == nil {
			err = fmt.Errorf("%s isn't defined", e.T)
		}
	})
	return g, err
}
