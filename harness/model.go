package main

import "unicode"

// The reference model: a direct interpreter of Expr written from the documented meaning of the rules. It
// works on offsets in the text, keeps no read-ahead, and shares no code with the code under test.

const (
	flagNS = 0 // suggest not to skip leading whitespace
	flagS  = 1 // suggest to skip
	flagN  = 3 // never skip
)

// wsp is Unicode's White_Space, which the code under test keeps as a table of its own
func wsp(c rune) bool { return unicode.IsSpace(c) }

// MNode is a node of the expected syntax tree. Off is the offset of the node's position, -1 for none
type MNode struct {
	Type, Name           string
	Chars                []rune
	Kids                 []*MNode
	Off                  int
	Sticky               bool
	Tok, Virt, Non       bool
	lead                 int // offset where the leading whitespace of a matched terminal starts (leaf only)
	amb                  bool
	start, end           int
	mergedFlags          bool // a flagged node was merged away (finding b)
	mergedTok            bool // a $ node was merged (finding a)
	annotated, wasMerged bool
}

type MRes struct {
	OK     bool
	End    int
	Node   *MNode
	Sticky bool
	Amb    bool // failed because of ambiguity
	Undef  bool // failed because of an undefined rule
	Err    *MErr
}

// MErr is where and how a failed evaluation failed
type MErr struct {
	Lo, Hi int // bounds of the index of the error
	Why    []MWhy
}

// MWhy is what the text of an error may end with: its kind, and the place it names, which may be before
// or after the whitespace that was skipped
type MWhy struct {
	Kind     string
	From, To int
	// the terminal that is missing, or the reference to an undefined rule, and the name of the rule it is
	E    *Expr
	Name string
}

const anyHi = 1 << 30

func fail(lo, hi int, kind string, from, to int) *MErr {
	return &MErr{lo, hi, []MWhy{{Kind: kind, From: from, To: to}}}
}

// furthest is the error of a choice of which all alternatives failed
func furthest(errs []*MErr) *MErr {
	out := &MErr{Lo: -1}
	for _, e := range errs {
		if e.Lo > out.Lo {
			out.Lo = e.Lo
		}
		if e.Hi > out.Hi {
			out.Hi = e.Hi
		}
	}
	for _, e := range errs {
		if e.Hi >= out.Lo {
			out.Why = append(out.Why, e.Why...)
		}
	}
	if len(out.Why) > 60 {
		out.Why = []MWhy{{Kind: "any"}}
	}
	return out
}

type overBudget struct{}

type Model struct {
	rules map[string]*Expr
	in    []rune
	steps int
	limit int
	depth int
	maxD  int
	// what happened
	ev struct {
		ambig, choiceMulti, choiceLater, optMissed, repStopped, repZero, blockEsc, blockExcl, blockVC, skippedWS, wsTerminal, refToggle, longestNotFirst int
		blockContent                                                                                                                                     int
	}
}

func NewModel(g *Gram, text string, limit int) *Model {
	m := &Model{rules: map[string]*Expr{}, in: []rune(text), limit: limit}
	if n := 8 * len(m.in); m.limit < n {
		m.limit = n
	}
	for _, r := range g.Rules {
		m.rules[r.Name] = r.E
	}
	return m
}

func hasAnn(e *Expr, c rune) bool {
	for _, a := range e.Ann {
		if a == c {
			return true
		}
	}
	return false
}

func (m *Model) node(e *Expr, typ, name string) *MNode {
	return &MNode{Type: typ, Name: name, Off: -1, Tok: hasAnn(e, '$'), Virt: hasAnn(e, '~'), Non: hasAnn(e, '#')}
}

func (m *Model) skip(pos int) int {
	for pos < len(m.in) && wsp(m.in[pos]) {
		pos++
	}
	return pos
}

func (m *Model) tick() {
	m.steps++
	if m.steps > m.limit {
		panic(overBudget{})
	}
}

func leadingWS(t []rune) int {
	n := 0
	for n < len(t) && wsp(t[n]) {
		n++
	}
	return n
}

func (m *Model) has(pos int, t []rune) bool {
	if pos+len(t) > len(m.in) {
		return false
	}
	for i, c := range t {
		if m.in[pos+i] != c {
			return false
		}
	}
	return true
}

func (m *Model) leaf(e *Expr, typ, name string, sticky bool, from, off, end int) MRes {
	n := m.node(e, typ, name)
	n.Sticky = sticky
	n.Chars = append([]rune{}, m.in[off:end]...)
	n.Off = off
	n.lead, n.start, n.end = from, off, end
	if off > from {
		m.ev.skippedWS++
	}
	return MRes{OK: true, End: end, Node: n, Sticky: sticky}
}

// Eval evaluates e at pos. name is the rule name when e is the top expression of a rule.
func (m *Model) Eval(e *Expr, name string, pos, flag int) MRes {
	m.tick()
	m.depth++
	if m.depth > m.maxD {
		m.maxD = m.depth
	}
	if m.depth > 1500 {
		panic(overBudget{})
	}
	defer func() { m.depth-- }()
	r := m.eval(e, name, pos, flag)
	if !r.OK && r.Err != nil {
		switch {
		case e.K == "ref" && r.Undef && m.rules[e.T] == nil, e.K == "char", e.K == "range", e.K == "chars", e.K == "string":
			for i := range r.Err.Why {
				r.Err.Why[i].E, r.Err.Why[i].Name = e, name
			}
		}
	}
	return r
}

func (m *Model) eval(e *Expr, name string, pos, flag int) MRes {
	switch e.K {
	case "char", "range":
		in := func(c rune) bool {
			if e.K == "char" {
				return c == e.Lo
			}
			return e.Lo <= c && c <= e.Hi
		}
		typ := "char"
		if e.K == "range" {
			typ = "chars"
		}
		if pos >= len(m.in) {
			return MRes{End: pos, Sticky: true, Err: fail(pos, pos, "at EOF", 0, 0)}
		}
		at := pos
		if flag == flagS {
			at = m.skip(pos)
			for i := pos; i < at; i++ {
				if in(m.in[i]) {
					m.ev.wsTerminal++
					return m.leaf(e, typ, name, true, pos, i, i+1)
				}
			}
			if e.K == "char" && wsp(e.Lo) && at > pos {
				err := fail(at, at+1, "at", pos, at)
				if at == len(m.in) {
					err.Why = append(err.Why, MWhy{Kind: "at EOF"})
				}
				return MRes{End: pos, Sticky: true, Err: err}
			}
		}
		if at < len(m.in) && in(m.in[at]) {
			return m.leaf(e, typ, name, true, pos, at, at+1)
		}
		err := fail(at, at+1, "at", pos, at)
		if at == len(m.in) {
			err.Why = append(err.Why, MWhy{Kind: "at EOF"})
		}
		return MRes{End: pos, Sticky: true, Err: err}
	case "chars", "string":
		typ, sticky := e.K, e.K == "chars"
		if pos >= len(m.in) {
			return MRes{End: pos, Sticky: sticky, Err: fail(pos, pos, "at EOF", 0, 0)}
		}
		t := []rune(e.T)
		at, run := pos, pos
		if flag == flagS || (flag == flagNS && e.K == "string") {
			lead := leadingWS(t)
			run = m.skip(pos)
			if run-pos < lead {
				return MRes{End: pos, Sticky: sticky, Err: fail(run, run+1, "at", pos, run)}
			}
			at = run - lead
			if lead > 0 {
				m.ev.wsTerminal++
			}
		}
		if !m.has(at, t) {
			bad := 0
			for at+bad < len(m.in) && m.in[at+bad] == t[bad] {
				bad++
			}
			if at+bad < run {
				bad = run - at
			}
			err := fail(at+bad, at+bad+1, "at", pos, run)
			if at+bad == len(m.in) {
				err.Why = append(err.Why, MWhy{Kind: "at EOF"})
			}
			return MRes{End: pos, Sticky: sticky, Err: err}
		}
		r := m.leaf(e, typ, name, sticky, pos, at, at+len(t))
		if len(t) == 0 {
			r.Node.Chars = nil
			if at >= len(m.in) {
				r.Node.Off = -1
			}
		}
		return r
	case "eof":
		at := pos
		if flag == flagS {
			at = m.skip(pos)
		}
		if at < len(m.in) {
			return MRes{End: pos, Sticky: true, Err: fail(at, at+1, "missing EOF", 0, 0)}
		}
		n := m.node(e, "EOF", "EOF")
		n.Chars = []rune{-1}
		n.Sticky = true
		n.lead, n.start, n.end = pos, at, at
		return MRes{OK: true, End: at, Node: n, Sticky: true}
	case "ref":
		target := m.rules[e.T]
		if target == nil {
			return MRes{End: pos, Undef: true, Err: fail(pos, pos, "not defined", 0, 0)}
		}
		r := m.Eval(target, e.T, pos, flag)
		if r.OK {
			if e.Ann != "" {
				m.ev.refToggle++
			}
			if hasAnn(e, '$') {
				r.Node.Tok = !r.Node.Tok
			}
			if hasAnn(e, '~') {
				r.Node.Virt = !r.Node.Virt
			}
			if hasAnn(e, '#') {
				r.Node.Non = !r.Node.Non
			}
		}
		return r
	case "opt":
		r := m.Eval(e.Kids[0], "", pos, flag)
		n := m.node(e, "option", name)
		n.Sticky = r.Sticky
		if !r.OK {
			m.ev.optMissed++
			return MRes{OK: true, End: pos, Node: n, Sticky: r.Sticky}
		}
		n.Kids = []*MNode{r.Node}
		n.Off = r.Node.Off
		return MRes{OK: true, End: r.End, Node: n, Sticky: r.Sticky}
	case "group":
		r := m.Eval(e.Kids[0], "", pos, flag)
		if !r.OK {
			r.End = pos
			return r
		}
		n := m.node(e, "group", name)
		n.Sticky = r.Sticky
		n.Kids = []*MNode{r.Node}
		n.Off = r.Node.Off
		return MRes{OK: true, End: r.End, Node: n, Sticky: r.Sticky}
	case "cat":
		n := m.node(e, "concatenate", name)
		sticky := true
		at := pos
		for _, k := range e.Kids {
			r := m.Eval(k, "", at, flag)
			sticky = sticky && r.Sticky
			if !r.OK {
				return MRes{End: pos, Sticky: sticky, Undef: r.Undef, Err: r.Err}
			}
			at = r.End
			if n.Off < 0 {
				n.Off = r.Node.Off
			}
			if r.Node.Type != "option" || len(r.Node.Kids) > 0 {
				flag = flagS
				if r.Sticky {
					flag = flagNS
				}
			}
			n.Kids = append(n.Kids, r.Node)
		}
		n.Sticky = sticky
		return MRes{OK: true, End: at, Node: n, Sticky: sticky}
	case "rep":
		n := m.node(e, "repetition", name)
		sticky := true
		at := pos
		var err *MErr
		for {
			atEnd := at >= len(m.in)
			if atEnd && len(n.Kids) >= e.Min {
				break
			}
			r := m.Eval(e.Kids[0], "", at, flag)
			sticky = sticky && r.Sticky
			if !r.OK {
				if !atEnd {
					m.ev.repStopped++
					err = &MErr{r.Err.Lo, anyHi, r.Err.Why}
				}
				break
			}
			if r.End == at && len(n.Kids) >= e.Min {
				m.ev.repZero++
				break
			}
			m.tick()
			at = r.End
			if n.Off < 0 {
				n.Off = r.Node.Off
			}
			n.Kids = append(n.Kids, r.Node)
			if e.Max > 0 && len(n.Kids) == e.Max {
				break
			}
		}
		if len(n.Kids) < e.Min {
			if err == nil {
				err = fail(at, anyHi, "less than minimal", 0, 0)
				// an option in it that didn't match leaves an error of its own
			}
			return MRes{End: pos, Sticky: sticky, Err: err}
		}
		n.Sticky = sticky
		return MRes{OK: true, End: at, Node: n, Sticky: sticky}
	case "choice":
		sticky := true
		var errs []*MErr
		for gi, gr := range e.Groups {
			var ok []MRes
			first := -1
			for i, k := range gr {
				r := m.Eval(k, "", pos, flag)
				sticky = sticky && r.Sticky
				if r.OK {
					if first < 0 {
						first = i
					}
					ok = append(ok, r)
				} else {
					errs = append(errs, r.Err)
				}
			}
			if len(ok) == 0 {
				continue
			}
			best, ties := 0, 0
			for i := range ok {
				if ok[i].End > ok[best].End {
					best = i
				}
			}
			for i := range ok {
				if ok[i].End == ok[best].End {
					ties++
				}
			}
			if len(ok) > 1 {
				m.ev.choiceMulti++
			}
			if ties > 1 {
				m.ev.ambig++
				return MRes{End: pos, Amb: true, Err: fail(pos, anyHi, "ambiguity", 0, 0)}
			}
			if best > 0 {
				m.ev.longestNotFirst++
			}
			if gi > 0 {
				m.ev.choiceLater++
			}
			n := m.node(e, "choice", name)
			n.Kids = []*MNode{ok[best].Node}
			n.Off = ok[best].Node.Off
			n.Sticky = sticky
			return MRes{OK: true, End: ok[best].End, Node: n, Sticky: sticky}
		}
		return MRes{End: pos, Sticky: sticky, Err: furthest(errs)}
	case "block":
		return m.block(e, name, pos, flag)
	}
	panic("model: unknown kind " + e.K)
}

func (m *Model) block(e *Expr, name string, pos, flag int) MRes {
	open := m.Eval(e.Open, "", pos, flag)
	if !open.OK {
		return MRes{End: pos, Undef: open.Undef, Err: &MErr{open.Err.Lo, anyHi, open.Err.Why}}
	}
	n := m.node(e, "block", name)
	n.Kids = append(n.Kids, open.Node)
	n.Off = open.Node.Off
	at := open.End
	content := &MNode{Type: "chars", Sticky: true, Off: -1}
	if at < len(m.in) {
		content.Off = at
	}
	content.lead, content.start = at, at
	n.Kids = append(n.Kids, content)
	for {
		m.tick()
		var esc []rune
		escaped := false
		if e.Esc != nil {
			if r := m.Eval(e.Esc, "", at, flagN); r.OK && r.End > at {
				escaped = true
				m.ev.blockEsc++
				esc = m.in[at:r.End]
				at = r.End
			}
		}
		exEnd := -1
		var texts []MWhy
		for _, x := range e.Ex {
			if r := m.Eval(x, "", at, flagN); r.OK {
				texts = append(texts, MWhy{Kind: "text `" + string(m.in[at:r.End]) + "` is not allowed in text block"})
				exEnd = max(exEnd, r.End)
			}
		}
		if exEnd >= 0 {
			m.ev.blockExcl++
			if !escaped {
				return MRes{End: pos, Err: &MErr{at, anyHi, texts}}
			}
			content.Chars = append(content.Chars, m.in[at:exEnd]...)
			at = exEnd
			continue
		}
		if r := m.Eval(e.Close, "", at, flagN); r.OK {
			if escaped {
				content.Chars = append(content.Chars, m.in[at:r.End]...)
				at = r.End
				continue
			}
			content.end = at
			if e.VC {
				m.ev.blockVC++
			} else {
				n.Kids = append(n.Kids, r.Node)
				at = r.End
			}
			break
		}
		content.Chars = append(content.Chars, esc...)
		if at >= len(m.in) {
			return MRes{End: pos, Err: fail(at, anyHi, "at EOF", 0, 0)}
		}
		m.ev.blockContent++
		content.Chars = append(content.Chars, esc...)
		content.Chars = append(content.Chars, m.in[at])
		at++
	}
	return MRes{OK: true, End: at, Node: n}
}

// EvalRule is the evaluation of a named rule at the beginning of the text
func (m *Model) EvalRule(name string, pos, flag int) MRes {
	e := m.rules[name]
	if e == nil {
		return MRes{Undef: true, Err: fail(0, 0, "not defined", 0, 0)}
	}
	return m.Eval(e, name, pos, flag)
}

type MAst struct {
	OK    bool
	Nodes []*MNode
	Amb   bool
	Empty bool
	Zero  bool
	multi int // how many times more than one root matched
	ends  []int
	// where it failed
	At, Flag int
	Tied     []*MNode
	Errs     map[string]*MErr // of each root
}

// EvalRaw is the evaluation of the whole text
func (m *Model) EvalRaw(roots []string) MAst {
	if len(m.in) == 0 {
		return MAst{Empty: true}
	}
	var a MAst
	at, flag := 0, flagS
	for at < len(m.in) {
		var ok []MRes
		errs := map[string]*MErr{}
		for _, r := range roots {
			if res := m.EvalRule(r, at, flag); res.OK {
				ok = append(ok, res)
			} else {
				errs[r] = res.Err
			}
		}
		if len(ok) == 0 {
			return MAst{multi: a.multi, At: at, Flag: flag, Errs: errs}
		}
		best, ties := 0, 0
		for i := range ok {
			if ok[i].End > ok[best].End {
				best = i
			}
		}
		for i := range ok {
			if ok[i].End == ok[best].End {
				ties++
			}
		}
		if len(ok) > 1 {
			a.multi++
		}
		if ties > 1 {
			var tied []*MNode
			for i := range ok {
				if ok[i].End == ok[best].End {
					tied = append(tied, ok[i].Node)
				}
			}
			return MAst{Amb: true, multi: a.multi, At: at, Flag: flag, Tied: tied}
		}
		if ok[best].End == at {
			return MAst{Zero: true, multi: a.multi, At: at, Flag: flag, Tied: []*MNode{ok[best].Node}}
		}
		a.Nodes = append(a.Nodes, ok[best].Node)
		at = ok[best].End
		a.ends = append(a.ends, at)
		flag = flagS
		if ok[best].Sticky {
			flag = flagNS
		}
	}
	a.OK = true
	return a
}

// Embed is one child of the node EvalEmbed returns
type MEmbed struct {
	Node *MNode // nil for free text
	Text []rune
}

func (m *Model) EvalEmbed(rule string) []MEmbed {
	var out []MEmbed
	var text []rune
	flush := func() {
		if len(text) > 0 {
			out = append(out, MEmbed{Text: text})
			text = nil
		}
	}
	at := 0
	for at < len(m.in) {
		r := m.EvalRule(rule, at, flagN)
		if r.OK && r.End > at {
			flush()
			out = append(out, MEmbed{Node: r.Node})
			at = r.End
			continue
		}
		text = append(text, m.in[at])
		at++
	}
	flush()
	return out
}
