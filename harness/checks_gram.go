package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// resultString is all of a result that can be observed
func resultString(r *xbnf.EvalResult) string {
	if r == nil {
		return "nil"
	}
	return fmt.Sprintf("%s sticky=%v read=%q unused=%q error=%v", dump(r.Node), r.Sticky, string(r.CharsRead), string(r.CharsUnused), r.Error != nil)
}

func evalAll(g *xbnf.Grammar, rule, text string, off, flag int) string {
	rec := g.GetRecord(rule)
	if rec == nil {
		return "no rule " + rule
	}
	return resultString(rec.Rule().Eval(g, streamAt([]rune(text), off), flag))
}

// listing is what the printed grammar says
type listing struct {
	roots   []string
	users   map[string][]string // in the order printed
	refs    map[string][]string
	names   []string // in the order printed
	lines   []int
	defs    map[string]string
	term    map[string]bool
	virtual map[string]bool
	order   map[string]int
}

var ruleLine = regexp.MustCompile(`^L(\d+): (!?)([A-Za-z][A-Za-z0-9_]*)(\[T\])? *$`)

func parseListing(x *Ctx, s string) *listing {
	l := &listing{users: map[string][]string{}, refs: map[string][]string{}, defs: map[string]string{}, term: map[string]bool{}, virtual: map[string]bool{}}
	lines := strings.Split(s, "\n")
	if !strings.HasPrefix(lines[0], "Root Rules: ") {
		x.Failf("printed grammar has no root rules: %s", clip(s, 300))
	}
	for _, r := range strings.Split(strings.TrimPrefix(lines[0], "Root Rules: "), ",") {
		if r = strings.TrimSpace(r); r != "" {
			l.roots = append(l.roots, r)
		}
	}
	sort.Strings(l.roots)
	i := 1
	if i >= len(lines) || !strings.HasPrefix(lines[i], "Rule Reference Map:") {
		x.Failf("printed grammar has no reference map: %s", clip(s, 300))
	}
	for i++; i < len(lines) && !strings.HasPrefix(lines[i], "Rules:"); i++ {
		kv := strings.SplitN(lines[i], ":", 2)
		if len(kv) != 2 {
			x.Failf("line of the reference map: %q", lines[i])
		}
		name := strings.TrimSpace(kv[0])
		if _, twice := l.refs[name]; twice {
			x.Failf("rule %s is twice in the reference map", name)
		}
		l.refs[name] = []string{}
		for _, u := range strings.Split(kv[1], ",") {
			if u = strings.TrimSpace(u); u != "" {
				l.refs[name] = append(l.refs[name], u)
			}
		}
		l.users[name] = append([]string{}, l.refs[name]...)
		sort.Strings(l.refs[name])
	}
	if i >= len(lines) {
		x.Failf("printed grammar has no rules: %s", clip(s, 300))
	}
	for i++; i < len(lines); i++ {
		line := strings.TrimPrefix(lines[i], "    ")
		if strings.TrimSpace(line) == "" {
			continue
		}
		kv := strings.SplitN(line, " = ", 2)
		if len(kv) != 2 {
			x.Failf("printed rule: %q", line)
		}
		m := ruleLine.FindStringSubmatch(kv[0])
		if m == nil {
			x.Failf("printed rule: %q", line)
		}
		n, _ := strconv.Atoi(m[1])
		name := m[3]
		if _, twice := l.defs[name]; twice {
			x.Failf("rule %s is printed twice", name)
		}
		l.lines = append(l.lines, n)
		l.names = append(l.names, name)
		l.defs[name] = kv[1]
		l.virtual[name] = m[2] == "!"
		l.term[name] = m[4] != ""
	}
	return l
}

func (l *listing) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "roots %v refs ", l.roots)
	var ks []string
	for k := range l.refs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s<-%v ", k, l.refs[k])
	}
	for _, n := range l.names {
		fmt.Fprintf(&b, "| %s T=%v V=%v %s ", n, l.term[n], l.virtual[n], l.defs[n])
	}
	return b.String()
}

func refNames(e *Expr) []string {
	var out []string
	e.walk(func(k *Expr) {
		if k.K == "ref" {
			out = append(out, k.T)
		}
	})
	return out
}

// checkListing compares a printed grammar with the rules it was made of, in order of definition
func checkListing(x *Ctx, g *xbnf.Grammar, rules []Rule, validated bool) *listing {
	l := parseListing(x, g.Serialize(false))
	var names []string
	used := map[string][]string{}
	for _, r := range rules {
		names = append(names, r.Name)
		for _, u := range refNames(r.E) {
			used[u] = append(used[u], r.Name)
		}
	}
	if fmt.Sprint(l.names) != fmt.Sprint(names) {
		x.Failf("the printed grammar lists the rules %v, want %v", l.names, names)
	}
	for i := 1; i < len(l.lines); i++ {
		if l.lines[i] <= l.lines[i-1] {
			x.Failf("line numbers of the printed rules: %v", l.lines)
		}
	}
	var roots []string
	for _, r := range rules {
		users, exists := used[r.Name]
		if !exists {
			roots = append(roots, r.Name)
		}
		sort.Strings(users)
		if fmt.Sprint(l.refs[r.Name]) != fmt.Sprint(users) {
			x.Failf("the printed users of rule %s are %v, want %v", r.Name, l.refs[r.Name], users)
		}
		if v := hasAnn(r.E, '~') && r.E.K != "cat" && r.E.K != "choice"; l.virtual[r.Name] != v {
			x.Failf("rule %s is printed with virtual=%v, want %v", r.Name, l.virtual[r.Name], v)
		}
		if validated && l.term[r.Name] != (len(refNames(r.E)) == 0) {
			x.Failf("rule %s is printed with terminal=%v", r.Name, l.term[r.Name])
		}
		if rule := g.GetRule(r.Name); rule == nil || l.defs[r.Name] != rule.String() {
			x.Failf("rule %s is printed as %q, want %q", r.Name, l.defs[r.Name], rule.String())
		}
	}
	sort.Strings(roots)
	if fmt.Sprint(l.roots) != fmt.Sprint(roots) {
		x.Failf("the printed root rules are %v, want %v", l.roots, roots)
	}
	return l
}

// ---------------------------------------------------------------- C10 printing round trip

var loneHex = regexp.MustCompile(`^'(\\u[0-9A-Fa-f]{4})'$`)

// unquoteLoneHex takes the quotes around a terminal that is one hex escape away. It goes from terminal to terminal: in
// 'a'\u0001'a' the quotes are those of two others
func unquoteLoneHex(def string) string {
	var b strings.Builder
	for i := 0; i < len(def); {
		c := def[i]
		j := i + 1
		if c == '\'' || c == '"' {
			for j < len(def) && def[j] != c {
				if def[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(def))
		}
		b.WriteString(loneHex.ReplaceAllString(def[i:j], "$1"))
		i = j
	}
	return b.String()
}

const alphaCtl = "ab'\"\\\x01\x7f\x00\u0085\u00ad\u200b\u2028\ufeff\ufffd\U0001F600\U0010FFFF|<>{}^!"

func init() {
	register(&Check{
		ID: "C10", Quick: 200000, Thorough: 4000000,
		Rule: "a case is a grammar (all kinds of rules, annotations and counts; quotes, backslashes, control and astral chars in terminals) written in a random notation, with 1-3 texts; every rule is printed and loaded again, and both grammars are run on the texts; non-trivial: the grammar has more than one kind of rule or a char that needs escaping",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.Ann, p.WideRep, p.Many = 5, true, 1
			p.W = weights(map[string]int{"range": 4, "rep": 6, "block": 4})
			p = drawProf(t, p)
			switch pick(t, 4) {
			case 0:
				p.Alpha = alphaCtl
			case 1:
				p.Alpha = alphaSym
			}
			c := drawEval(t, p, 3)
			c.L = drawLayout(t, 40)
			return c
		},
		Run: runC10,
	})
}

func runC10(c *Case, x *Ctx) {
	// what the model can do within its budget, the code under test can do in reasonable time
	for _, s := range c.In {
		NewModel(c.G, s, modelBudget).EvalRule(c.Rule, 0, flagS)
	}
	text := c.G.Text(&Layout{d: c.L})
	g := mustGrammar(x, text)
	kinds := map[string]bool{}
	c.G.walk(func(e *Expr) {
		kinds[e.K] = true
		for _, r := range e.T + string(e.Lo) + string(e.Hi) {
			if strings.ContainsRune("'\"\\", r) || r > 0x7e || r < 0x20 && r != 0 {
				x.NonTrivial(true)
			}
		}
	})
	x.NonTrivial(len(kinds) > 1)
	for k := range kinds {
		x.Class("has " + k)
	}
	l := checkListing(x, g, c.G.Rules, true)
	full := g.Serialize(true)
	for _, n := range l.names {
		if !strings.Contains(full, l.defs[n]) {
			x.Failf("the detailed print has no rule %s: %s", n, l.defs[n])
		}
	}
	var b strings.Builder
	for _, n := range l.names {
		b.WriteString(n + " = " + g.GetRule(n).String() + "\n")
		if strings.ContainsRune(g.GetRule(n).String(), '\n') {
			x.Failf("rule %s is printed over several lines: %q", n, g.GetRule(n).String())
		}
	}
	g2, err := xbnf.NewGrammarFromString(b.String())
	if err != nil {
		x.Failf("the printed rules aren't a valid definition: %v\n%s", err, b.String())
	}
	l2 := parseListing(x, g2.Serialize(false))
	// a lone control char is printed as '\\u0009' or \\u0009, which are the same
	if a, b := unquoteLoneHex(l.String()), unquoteLoneHex(l2.String()); a != b {
		x.Failf("printed again, the grammar differs:\n%s\n%s", a, b)
	}
	for _, s := range c.In {
		for _, n := range l.names {
			for _, flag := range []int{flagS, flagN} {
				if n != c.Rule && flag == flagN {
					continue
				}
				NewModel(c.G, s, modelBudget).EvalRule(n, 0, flag)
				a, b := evalAll(g, n, s, 0, flag), evalAll(g2, n, s, 0, flag)
				x.ClassIf(!strings.HasPrefix(a, "nil"), "matched")
				if a != b {
					x.Failf("rule %s (printed: %s) on %q: %s\nfrom the printed rule: %s", n, l.defs[n], s, a, b)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C11 stepwise assembly

func init() {
	register(&Check{
		ID: "C11", Quick: 150000, Thorough: 4000000,
		Rule: "a case is a history of 3-15 steps on one grammar, empty or loaded from a text: adding a rule (by definition or by name and definition), adding a duplicate, a malformed rule, a bad name, validating, printing and parsing a text, checked after each step against a list of the rules added; plus the same rules loaded at once, in another order, from a file, and with a bad line; non-trivial: a failed addition or a failed validation is followed by a successful one",
		Draw: drawC11,
		Run:  runC11,
	})
}

var badDefs = []string{"", "(", "'a' |", "r ) )", "s s s {", "x [ u ", "aa | ", "'", "\"abc", "{ 'a' }<2,1>", "long_rule_name < 'a' >", "a1 @", "B_2 B_2 ''", "EO | | r", "\\u12", "r 'a'-'", "// nothing",
	"'a' =", "'a';", "'a',", "= 'a'", ": 'a'", "'a' .", "r.", "'a' == 'b'", "'a' !", "'a' ^'b'", "^'a'", "'a' @ 'b'", "'a' \x01 'b'", "'a' / 'b'", "'a' }", "] 'a'", "'a' >", "r-r", "r = 'a'", "1", "'a' ~", "# | 'a'", "'a'\x00"}
var badNames = []string{"", "1a", "a-b", "a b", "é", "_x", "a.b", "~r", "a\u00e9"}

func drawC11(t *rapid.T) *Case {
	p := profBase()
	p.Rules, p.Depth, p.Ann = 6, 2, 3
	p = drawProf(t, p)
	p.Depth = 2
	if pick(t, 30) == 29 {
		p.Big = "rules"
	}
	g := drawGram(t, p)
	c := &Case{G: g, N: pick(t, 1<<10), L2: drawLayout(t, 10)}
	c.In = drawTexts(t, g, g.Rules[0].E, p, 2)
	n := 2 + pick(t, 12)
	next := 0
	if pick(t, 3) == 0 {
		c.Ops = append(c.Ops, Op{K: "load", N: 1 + pick(t, len(g.Rules)), M: pick(t, 1<<12)})
	}
	for i := 0; i < n; i++ {
		switch weighted(t, []int{9, 3, 3, 2, 4, 3}) {
		case 0:
			if next < len(g.Rules) {
				c.Ops = append(c.Ops, Op{K: []string{"add", "parse"}[pick(t, 2)], N: next})
				next++
			}
		case 1:
			if next > 0 {
				c.Ops = append(c.Ops, Op{K: "dup", N: pick(t, next), M: pick(t, len(g.Rules))})
			}
		case 2:
			c.Ops = append(c.Ops, Op{K: "bad", N: pick(t, len(g.Rules)), S: badDefs[pick(t, len(badDefs))], M: pick(t, 3)})
		case 3:
			c.Ops = append(c.Ops, Op{K: "badname", S: badNames[pick(t, len(badNames))], M: pick(t, len(g.Rules))})
		case 4:
			c.Ops = append(c.Ops, Op{K: "validate"})
		case 5:
			c.Ops = append(c.Ops, Op{K: "eval", N: pick(t, len(c.In))})
		}
	}
	all := len(g.Rules) > 12 && pick(t, 3) > 0
	for next < len(g.Rules) && (all || pick(t, 6) > 0) {
		c.Ops = append(c.Ops, Op{K: "add", N: next})
		next++
	}
	c.Ops = append(c.Ops, Op{K: "validate"}, Op{K: "eval"})
	return c
}

func runC11(c *Case, x *Ctx) {
	g := xbnf.NewGrammar()
	clean := xbnf.NewGrammar() // sees only the steps that succeed
	var have []Rule
	def := func(i int) string { return c.G.Rules[i].E.Print(nil) }
	var roots []string // since the last validation, nil: not validated
	trouble := false
	exists := func(name string) bool { return (&Gram{have}).find(name) != nil }
	for step, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s %q %d)", step, op.K, op.S, op.N)
		switch op.K {
		case "load": // the last rules, from a text; all else goes on from there
			some := &Gram{append([]Rule{}, c.G.Rules[len(c.G.Rules)-op.N:]...)}
			var lines []string
			for i, r := range some.Rules {
				switch op.M >> uint(2*(i%6)) & 3 {
				case 1:
					lines = append(lines, "")
				case 2:
					lines = append(lines, "// a = 'b'", " \t")
				}
				lines = append(lines, r.Name+" = "+r.E.Print(nil))
			}
			if op.M&1 != 0 {
				lines = append(lines, "", "// end", "")
			}
			loaded, err := xbnf.NewGrammarFromString(strings.Join(lines, "\n"))
			if (err != nil) != some.undefined() {
				x.Failf("%s: error %v, undefined rules: %v\n%s", what, err, some.undefined(), strings.Join(lines, "\n"))
			}
			if err == nil {
				g, have = loaded, some.Rules
				clean = mustGrammar(x, strings.Join(lines, "\n"))
				roots = some.roots()
				x.Class("goes on from a loaded grammar")
			}
		case "add", "parse":
			r := c.G.Rules[op.N]
			var rule xbnf.IRule
			var err error
			if op.K == "add" {
				rule, err = g.AddRule(r.Name + " = " + def(op.N))
			} else {
				rule, err = g.ParseRule(r.Name, def(op.N))
			}
			if exists(r.Name) {
				if err == nil {
					x.Failf("%s: duplicate rule accepted", what)
				}
				break
			}
			if err != nil || isNilRule(rule) {
				x.Failf("%s: valid rule %s rejected: %v", what, def(op.N), err)
			}
			if rule.Name() != r.Name && r.E.K != "eof" {
				x.Failf("%s: the name of the new rule is %q", what, rule.Name())
			}
			have = append(have, r)
			if _, err = clean.AddRule(r.Name + " = " + def(op.N)); err != nil {
				x.Failf("%s: without the rejected steps, rule %s is rejected: %v", what, def(op.N), err)
			}
			roots = nil
			x.NonTrivial(trouble)
		case "dup":
			if !exists(c.G.Rules[op.N].Name) {
				break
			}
			rule, err := g.AddRule(c.G.Rules[op.N].Name + " = " + def(op.M))
			if err == nil || !isNilRule(rule) {
				x.Failf("%s: duplicate rule accepted", what)
			}
			if !strings.Contains(err.Error(), c.G.Rules[op.N].Name) {
				x.Failf("%s: the error doesn't name the rule: %v", what, err)
			}
			trouble = true
			x.Class("duplicate added")
		case "bad":
			name := c.G.Rules[op.N].Name
			d := op.S
			if op.M == 1 { // references before the defect
				d = def(op.N) + " " + d
			} else if op.M == 2 {
				d = "( " + c.G.Rules[0].Name + " " + d
			}
			if (op.S == "" || strings.HasPrefix(op.S, "//")) && op.M == 1 {
				d = ""
			}
			rule, err := g.ParseRule(name, d)
			if err == nil || !isNilRule(rule) {
				x.Failf("%s: malformed rule accepted: %s", what, d)
			}
			if d != "" && op.N%2 == 0 {
				if rule, err = g.AddRule(name + " =" + d); err == nil || !isNilRule(rule) {
					x.Failf("%s: malformed rule added: %s", what, name+" ="+d)
				}
			}
			if !strings.Contains(d, "=") {
				if rule, err = g.AddRule(name + d); err == nil || !isNilRule(rule) {
					x.Failf("%s: rule without = accepted: %s", what, name+d)
				}
			}
			trouble = true
			x.Class("malformed rule added")
		case "badname":
			rule, err := g.AddRule(op.S + " = " + def(op.M))
			if err == nil || !isNilRule(rule) {
				x.Failf("%s: bad name accepted", what)
			}
			trouble = true
		case "validate":
			undef := map[string]bool{}
			for _, r := range have {
				for _, u := range refNames(r.E) {
					if !exists(u) {
						undef[u] = true
					}
				}
			}
			err := g.Validate()
			if (err != nil) != (len(undef) > 0) {
				x.Failf("%s: error %v, undefined rules: %v", what, err, undef)
			}
			if err != nil {
				named := false
				for u := range undef {
					named = named || strings.Contains(err.Error(), "'"+u+"'")
				}
				if !named {
					x.Failf("%s: error %v names none of %v", what, err, undef)
				}
				trouble = true
				roots = nil
				x.Class("validation failed")
				break
			}
			roots = (&Gram{have}).roots()
			x.ClassIf(trouble, "validated after trouble")
		case "eval":
			if roots == nil && len(have) > 0 {
				break
			}
			s := c.In[op.N]
			gr := &Gram{have}
			m := NewModel(gr, s, modelBudget)
			want := m.EvalRaw(roots)
			ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(s))
			if (err == nil) != want.OK {
				x.Failf("%s: Eval of %q: %v, want matched=%v with the root rules %v", what, s, err, want.OK, roots)
			}
			if err == nil {
				if d := diffList(ast.Nodes, want.Nodes, m.in, mShape|mName); d != "" {
					x.Failf("%s: Eval of %q: %s", what, s, d)
				}
				x.Class("text parsed")
			}
		}
		// the grammar is what was added, and nothing else
		for _, r := range c.G.Rules {
			rule, rec := g.GetRule(r.Name), g.GetRecord(r.Name)
			if exists(r.Name) != (rule != nil) || exists(r.Name) != (rec != nil) {
				x.Failf("%s: rule %s: added=%v, there=%v", what, r.Name, exists(r.Name), rule != nil)
			}
			if rec != nil && rec.Rule() != rule {
				x.Failf("%s: record and rule %s differ", what, r.Name)
			}
		}
		checkListing(x, g, have, roots != nil)
	}
	// a rejected step leaves no trace, in the lines of the rules neither
	if la, lb := parseListing(x, g.Serialize(false)), parseListing(x, clean.Serialize(false)); fmt.Sprint(la.names, la.lines) != fmt.Sprint(lb.names, lb.lines) {
		x.Failf("lines of the rules: %v %v\nwithout the rejected steps: %v %v", la.names, la.lines, lb.names, lb.lines)
	}
	// the same rules at once
	if (&Gram{have}).undefined() {
		return
	}
	text := (&Gram{have}).Text(nil)
	all := mustGrammar(x, text)
	a, b := parseListing(x, g.Serialize(false)), parseListing(x, all.Serialize(false))
	if a.String() != b.String() {
		x.Failf("rule by rule:\n%s\nat once:\n%s", a, b)
	}
	// in another order
	perm := append([]Rule{}, have...)
	l := &Layout{d: c.L2}
	for i := len(perm) - 1; i > 0; i-- {
		j := l.pick(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	other := mustGrammar(x, (&Gram{perm}).Text(nil))
	checkListing(x, other, perm, true)
	for _, s := range c.In {
		for _, r := range have {
			NewModel(&Gram{have}, s, modelBudget).EvalRule(r.Name, 0, flagS)
			ra, rb := resultString(g.EvalRule(r.Name, s)), resultString(other.EvalRule(r.Name, s))
			if ra != rb {
				x.Failf("rule %s on %q: %s\nwith the rules in another order: %s", r.Name, s, ra, rb)
			}
		}
	}
	// lines: blanks and comments count, the first bad line is reported
	var lines []string
	where := map[string]int{}
	for i, r := range perm {
		switch (c.N >> uint(i%10)) & 3 {
		case 1:
			lines = append(lines, "")
		case 2:
			lines = append(lines, "// comment", "   ")
		}
		lines = append(lines, r.Name+" = "+r.E.Print(nil))
		where[r.Name] = len(lines)
	}
	spaced := mustGrammar(x, strings.Join(lines, "\n"))
	ls := parseListing(x, spaced.Serialize(false))
	for i, n := range ls.names {
		if ls.lines[i] != where[n] {
			x.Failf("rule %s is on line %d, printed as line %d:\n%s", n, where[n], ls.lines[i], strings.Join(lines, "\n"))
		}
	}
	at := c.N % (len(lines) + 1)
	badLine := []string{"zz = ( 'a'", "zz 'a'", "1z = 'a'", perm[0].Name + " = 'a'"}[c.N%4]
	if c.N%4 == 3 && at < where[perm[0].Name] {
		at = len(lines)
	}
	bad := append(append(append([]string{}, lines[:at]...), badLine), lines[at:]...)
	bad = append(bad, "also bad")
	g3, err := xbnf.NewGrammarFromString(strings.Join(bad, "\n"))
	if err == nil || g3 != nil {
		x.Failf("bad line %q accepted", badLine)
	}
	if !regexp.MustCompile(fmt.Sprintf(`\b%d\b`, at+1)).MatchString(strings.SplitN(err.Error(), ":", 2)[0]) {
		x.Failf("bad line %d (%s) is reported as: %v", at+1, badLine, err)
	}
	if c.N%64 == 0 {
		x.Class("from a file")
		dir, e := os.MkdirTemp("", "xv-file-")
		if e != nil {
			panic(e)
		}
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "g.xbnf")
		os.WriteFile(f, []byte(text), 0o644)
		gf, err := xbnf.NewGrammarFromFile(f)
		if err != nil {
			x.Failf("from a file: %v", err)
		}
		if lf := parseListing(x, gf.Serialize(false)); lf.String() != b.String() {
			x.Failf("from a file:\n%s\nfrom a string:\n%s", lf, b)
		}
		os.WriteFile(f, []byte(strings.Join(bad, "\n")), 0o644)
		gf, err = xbnf.NewGrammarFromFile(f)
		if err == nil || gf != nil {
			x.Failf("from a file: bad line %q accepted", badLine)
		}
		if gf, err = xbnf.NewGrammarFromFile(filepath.Join(dir, "none")); err == nil || gf != nil {
			x.Failf("from a missing file: no error")
		}
	}
}

func (g *Gram) undefined() bool {
	u := len(g.Rules) == 0
	g.walk(func(e *Expr) {
		if e.K == "ref" && g.find(e.T) == nil {
			u = true
		}
	})
	return u
}

// ---------------------------------------------------------------- C12 names, annotations, stickiness

func init() {
	w := weights(map[string]int{"ref": 10, "choice": 4, "block": 3, "group": 4})
	register(&Check{
		ID: "C12", Quick: 300000, Thorough: 5000000,
		Rule: "a case is a grammar with annotations on many of its definitions, nested rules and references (chains of references too), evaluated at each whitespace flag and as a whole text; and the same grammar without annotations; non-trivial: an annotated node, or an annotated reference, is in the tree",
		Draw: func(t *rapid.T) *Case {
			if pick(t, 40) == 0 {
				return &Case{Kind: "token", N: pick(t, 6), In: []string{"xab"}}
			}
			p := profBase()
			p.W, p.Ann, p.Rules = w, 7, 5
			p = drawProf(t, p)
			c := drawEval(t, p, 3)
			c.L = drawLayout(t, 20)
			return c
		},
		Run: runC12,
	})
}

func stripAnn(g *Gram) *Gram {
	c := g.clone()
	c.walk(func(e *Expr) { e.Ann = "" })
	return c
}

func runC12(c *Case, x *Ctx) {
	if c.Kind == "token" {
		runToken(c, x)
		return
	}
	g := mustGrammar(x, c.G.Text(&Layout{d: c.L}))
	plain := mustGrammar(x, stripAnn(c.G).Text(nil))
	for _, r := range c.G.Rules {
		rule := g.GetRule(r.Name)
		if rule == nil {
			x.Failf("no rule %s", r.Name)
		}
		if rule.IsVirtual() != hasAnn(r.E, '~') || rule.IsNonData() != hasAnn(r.E, '#') || rule.IsTokenized() != hasAnn(r.E, '$') {
			x.Failf("rule %s = %s: virtual %v, nondata %v, token %v", r.Name, r.E.Print(nil), rule.IsVirtual(), rule.IsNonData(), rule.IsTokenized())
		}
		if r.E.K != "eof" && rule.Name() != r.Name {
			x.Failf("the name of rule %s is %q", r.Name, rule.Name())
		}
	}
	for _, s := range c.In {
		for _, flag := range []int{flagS, flagNS, flagN} {
			r, want, m := evalBoth(x, g, c.G, c.Rule, s, 0, flag)
			what := fmt.Sprintf("rule %s on %q (flag %d)", c.Rule, s, flag)
			countEvents(x, m, want)
			rp := plain.GetRule(c.Rule).Eval(plain, xbnf.NewCharstreamFromString(s), flag)
			if (r.Node == nil) != (rp.Node == nil) || endOf(x, r) != endOf(x, rp) {
				x.Failf("%s: matched=%v, %d chars used; without annotations: matched=%v, %d chars used", what, r.Node != nil, endOf(x, r), rp.Node != nil, endOf(x, rp))
			}
			if (r.Node != nil) != want.OK {
				x.Class("acceptance differs from the model")
				continue
			}
			if r.Sticky != want.Sticky && !want.Undef && !want.Amb {
				x.Failf("%s: result sticky %v, want %v", what, r.Sticky, want.Sticky)
			}
			if r.Node == nil {
				continue
			}
			if !sameShape(r.Node, want.Node) {
				x.Class("shape differs from the model")
				continue
			}
			want.Node.walk(func(n *MNode) { x.NonTrivial(n.Tok || n.Virt || n.Non) })
			x.NonTrivial(m.ev.refToggle > 0)
			if d := diffTree(r.Node, want.Node, m.in, mName|mFlags|mSticky, "node"); d != "" {
				x.Failf("%s: %s\n got %s\nwant %s", what, d, dump(r.Node), wantDump(want.Node, m.in))
			}
		}
		m := NewModel(c.G, s, modelBudget)
		want := m.EvalRaw(c.G.roots())
		ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(s))
		if err == nil && want.OK && diffList(ast.Nodes, want.Nodes, m.in, mShape) == "" {
			x.Class("whole text")
			if d := diffList(ast.Nodes, want.Nodes, m.in, mName|mFlags|mSticky); d != "" {
				x.Failf("Eval of %q: %s", s, d)
			}
		}
	}
}

// runToken: a token is not merged with the node before it. N chooses where the token is; the ones in which a
// sticky token directly follows a sticky node are a known finding, and only made by its replay file (N >= 100).
func runToken(c *Case, x *Ctx) {
	defs := []string{
		"r = \"x\" $'a' \"b\"\n",
		"r = $\"x\" $\"a\" $\"b\"\n",
		"r = 'x' \"a\" $'b'\n",
		"r = 'x' $\"a\" 'b'\n",
		"r = s $\"a\" s2\ns = 'x'\ns2 = 'b'\n",
		"r = \"x\" t \"b\"\nt = $'a'\n",
	}
	def := ""
	if c.N >= 100 {
		def = "r = \"x\" 'a' $'b'\n"
	} else {
		def = defs[c.N%len(defs)]
	}
	g := mustGrammar(x, def)
	for _, s := range c.In {
		ast, err := g.Eval(xbnf.NewCharstreamFromString(s), xbnf.LevelBasic)
		if err != nil {
			x.Failf("%s on %q: %v", oneLine(def), s, err)
		}
		var leaves [][]rune
		for _, n := range ast.Nodes {
			realLeaves(n, &leaves)
		}
		x.Class("token kept")
		x.NonTrivial(true)
		if len(leaves) != 3 {
			x.Failf("%s on %q: the leaves are %q, want 3", oneLine(def), s, leaves)
		}
	}
}
