package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C08 termination

func init() {
	w := weights(map[string]int{"opt": 7, "rep": 8, "eof": 3, "string": 7, "choice": 5, "block": 5, "group": 4, "cat": 7})
	register(&Check{
		ID: "C08", Quick: 60000, Thorough: 1200000,
		Rule: "a case is a grammar full of rules that can match nothing (options, empty strings, end of input, unbounded repetitions and blocks of them, possibly undefined references) with texts, run through every entry point and every printing and simplifying operation; or one of several families of very deep or long texts; non-trivial: a zero-length match was met inside of a repetition or at a root, a rule is undefined, or the text is deep or long",
		Draw: func(t *rapid.T) *Case {
			if pick(t, 150) == 0 {
				return &Case{Kind: "deep", N: 1 + pick(t, 300), M: pick(t, len(deepFamilies))}
			}
			if pick(t, 6) == 0 {
				c := &Case{Kind: "recursion", N: []int{6, 15, 30, 60}[pick(t, 4)], Rule: "e"}
				g, chars := drawRecursion(t, c.N)
				c.G = g
				i := pick(t, len(chars))
				c.In = []string{string(chars), string(chars[:len(chars)/2]), string(chars[:len(chars)-1]),
					string(chars[:i]) + "?" + string(chars[i:]), string(chars[:i]), string(chars) + "?"}
				return c
			}
			p := profBase()
			p.W, p.EmptyStr, p.Ann = w, 6, 2
			p = drawProf(t, p)
			if pick(t, 3) == 0 {
				p.Top = []string{"rep", "opt", "block", "string"}[pick(t, 4)]
			}
			c := drawEval(t, p, 3)
			if chance(t, 3) {
				c.In = append(c.In, []string{"", " ", "\n\t ", "\x00", string([]byte{0xff, 'a', 0xc3}), "\ufffd\ufeff"}[pick(t, 6)])
			}
			if chance(t, 3) { // a reference to a rule that is not defined
				undefine(t, c.G)
			}
			return c
		},
		Run:   runC08,
		Once:  longTexts,
		OnceN: 9 * 5,
	})
}

// a text of each is wholly matched; with an end put to it (see failing) or without its last chars it may fail at the
// innermost, which must not take longer
var deepFamilies = []struct {
	def  string
	text func(n int) string
}{
	{"e = ( ( ( 'a' [ ( e ) ] ) 'z' ) )\n", func(n int) string { return strings.Repeat("a", n) + strings.Repeat("z", n) }},
	{"e = ( 'a' ( e ) 'z' ) | ( 'b' 'z' )\n", func(n int) string { return strings.Repeat("a", n) + "bz" + strings.Repeat("z", n) }},
	{"e = [ 'a' s ]\ns = [ ( { ( e ) }<1,1> ) ] 'z'\n", func(n int) string { return strings.Repeat("a", n) + strings.Repeat("z", n) }},
	{"e = < ( 'a' [ e ] ) 'z' >\n", func(n int) string { return strings.Repeat("a", n) + strings.Repeat("z", n) }},
	{"e = 'x' > ( 'a' e 'z' > 'b' )\n", func(n int) string { return strings.Repeat("a", n) + "x" + strings.Repeat("z", n) }},
	{"e = '(' [ e ] ')'\n", func(n int) string { return strings.Repeat("(", n) + strings.Repeat(")", n) }},
	{"e = ( \"(\" { e } \")\" ) | 'x'\n", func(n int) string { return strings.Repeat("( x ", n) + strings.Repeat(")", n) }},
	{"e = 'a' [ e ]\n", func(n int) string { return strings.Repeat("a", n*4) }},
	{"e = { 'a' | \"b\" }\n", func(n int) string { return strings.Repeat("a b", n*10) }},
	{"e = < '<' '\\\\' ^'%' '>' >\n", func(n int) string { return "<" + strings.Repeat("a\n \\>", n*10) + ">" }},
	{"e = { < '#' \\u000A > }\n", func(n int) string { return strings.Repeat("#xy z\n", n*2) }},
	{"e = ( \"\" { [ \"\" ] } \"\" { \"\" }<2,> ) 'a' [ e ]\n", func(n int) string { return strings.Repeat("a", n) }},
	{"e = { [ 'a' ] { [ 'b' ] } }\n", func(n int) string { return strings.Repeat("ab", n*2) }},
	{"e = 'a' e | \"b\"\n", func(n int) string { return strings.Repeat("a", n) + "b" }},
}

func hasUndef(g *Gram) string {
	undef := ""
	g.walk(func(e *Expr) {
		if e.K == "ref" && g.find(e.T) == nil {
			undef = e.T
		}
	})
	return undef
}

// useNode does with a tree all that can be done with it
func useNode(n *xbnf.Node) {
	for _, conf := range []*xbnf.NodeTreeConfig{nil, {PrintRuleType: true, PrintNonleafNodeText: true}} {
		_ = n.StringTree(conf)
	}
	_ = n.Text()
	n.CountNodes()
	n.CountTokens()
	n.CountStickyNodes()
	n.MergeStickyNodes()
	n.RemoveVirtualNodes()
	n.RemoveNonDataNodes()
	n.RemoveRedundantNodes()
	n.MergeStickyNodes()
	_ = n.StringTree(nil)
}

func useResult(x *Ctx, what string, r *xbnf.EvalResult) {
	if r == nil {
		x.Failf("%s: nil result", what)
	}
	if r.Node == nil && r.Error == nil {
		x.Failf("%s: neither a node nor an error", what)
	}
	_ = r.StringTree(nil)
	if r.Error != nil {
		_ = r.Error.Error()
	}
	r.MergeStickyNodes()
	if r.Node != nil {
		useNode(r.Node)
	}
}

func useAST(x *Ctx, what string, ast *xbnf.AST, err error) {
	if (ast == nil) == (err == nil) {
		x.Failf("%s: tree %v and error %v", what, ast != nil, err)
	}
	_ = ast.StringTree(nil)
	_ = ast.Text()
	ast.CountNodes()
	ast.CountTokens()
	ast.CountStickyNodes()
	ast.MergeStickyNodes()
	if ast != nil {
		ast.RemoveVirtualNodes()
		ast.RemoveNonDataNodes()
		ast.RemoveRedundantNodes()
		_ = ast.StringTree(xbnf.DefaultNodeTreeConfig())
		for _, n := range ast.Nodes {
			useNode(n)
		}
	}
}

func useGrammar(g *xbnf.Grammar, names []string) {
	_ = g.Serialize(true)
	_ = g.Serialize(false)
	for _, n := range names {
		if r := g.GetRule(n); r != nil {
			_ = r.String()
			_ = r.StringWithIndent("  ")
			r.Name()
			r.IsVirtual()
			r.IsNonData()
			r.IsTokenized()
		}
	}
}

// longTexts evaluates long texts by each entry point. Each takes well below a second; work that grows with the
// square of the length takes minutes, which ends the process.
func longTexts(x *Ctx) {
	const n = 60000
	for _, f := range []struct{ def, part string }{
		{"e = 'a' 'b'\n", "aaaaaaaaa "},
		{"e = { 'a' }<1,3> 'c' | 'b'\n", "aaaab "},
		{"e = 'a' [ \"b\" ]\n", "a\n"},
		{"e = { 'a' | \"b\" }<1,>\n", "a bb\n"},
		{"e = { \"a\" \"b\" [ \"c\" ] }<1,>\n", "ab abc "},
		{"e = < '<' '\\\\' ^'%' '>' >\n", "<\\> x\n y>"},
		{"e = < '<' '>' ! > '>'\n", "<xxx>"},
		{"e = { < '#' \\u000A > }<1,>\n", "# abc\n"},
		{"e = 'ab' | 'abc' | 'abd' > 'x'\n", "abxabcx"},
	} {
		g := mustGrammar(x, f.def)
		text := strings.Repeat(f.part, n/len(f.part))
		if r := g.EvalEmbed("e", text); r.Node == nil || len(r.Node.ChildNodes) == 0 {
			x.Failf("%q: EvalEmbed of a long text: %v", f.def, r.Error)
		}
		tick()
		g.EvalRule("e", text)
		for _, level := range []int{xbnf.LevelRaw, xbnf.LevelBasic, xbnf.LevelDataOnly} {
			ast, err := g.Eval(xbnf.NewCharstreamFromString(text), level)
			if (ast == nil) == (err == nil) {
				x.Failf("%q: Eval of a long text: tree %v, error %v", f.def, ast != nil, err)
			}
			if ast != nil {
				_ = ast.Text()
				_ = ast.StringTree(nil)
			}
			tick()
		}
		x.Class("long text")
	}
}

func runC08(c *Case, x *Ctx) {
	if c.Kind == "deep" {
		f := deepFamilies[c.M%len(deepFamilies)]
		g := mustGrammar(x, f.def+"root = e\n")
		text := f.text(c.N)
		x.NonTrivial(true)
		x.Class(fmt.Sprintf("deep or long, family %d", c.M))
		r := g.EvalRule("e", text)
		if r.Node == nil || endOf(x, r) != len([]rune(text)) {
			x.Failf("%q on a text of %d chars: %d chars used, error %v", f.def, len(text), endOf(x, r), r.Error)
		}
		if c.N < 150 {
			useResult(x, "deep", r)
		}
		// the same with something in the middle or at the end that doesn't fit: a result soon, or none
		chars := []rune(text)
		for _, bad := range []string{string(chars[:len(chars)/2]), string(chars[:len(chars)/2]) + "?" + string(chars[len(chars)/2:]), string(chars[:len(chars)-1]), text + "?"} {
			tick()
			r := g.EvalRule("e", bad)
			if r == nil || r.Node == nil && r.Error == nil {
				x.Failf("%q on a text of %d chars that doesn't fit: no result", f.def, len(bad))
			}
			ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(bad))
			if (ast == nil) == (err == nil) {
				x.Failf("%q on a text of %d chars that doesn't fit: tree %v, error %v", f.def, len(bad), ast != nil, err)
			}
		}
		for _, level := range []int{xbnf.LevelRaw, xbnf.LevelDataOnly} {
			ast, err := g.Eval(xbnf.NewCharstreamFromString(text), level)
			if err != nil {
				x.Failf("%q: Eval of a text of %d chars: %v", f.def, len(text), err)
			}
			_ = ast.Text()
		}
		if r := g.EvalEmbed("e", text); r.Node == nil {
			x.Failf("%q: EvalEmbed of a text of %d chars: %v", f.def, len(text), r.Error)
		}
		return
	}
	if c.Kind == "recursion" {
		// what takes a number of steps in proportion to the text by its meaning, must not take more
		g := mustGrammar(x, c.G.Text(nil))
		for _, s := range c.In {
			m := NewModel(c.G, s, 20000)
			want := m.EvalRule("e", 0, flagS)
			x.NonTrivial(m.maxD > 30)
			x.ClassIf(m.maxD > 30, "recursion deeper than 30")
			x.ClassIf(m.maxD > 30 && want.OK, "deep recursion matched")
			r := g.EvalRule("e", s)
			compareEval(x, fmt.Sprintf("recursion on %q", s), r, want, 0, m.in, mShape)
			tick()
		}
		return
	}
	if c.Kind == "leftrec" { // only made by the replay file of the known finding: the process ends
		g := mustGrammar(x, c.G.Text(nil))
		useResult(x, "left recursion", g.EvalRule(c.Rule, c.In[0]))
		return
	}
	var names []string
	for _, r := range c.G.Rules {
		names = append(names, r.Name)
	}
	// a case that takes too long by its meaning is left out
	for _, s := range c.In {
		for _, n := range names {
			for _, flag := range []int{flagS, flagNS, flagN} {
				m := NewModel(c.G, s, modelBudget)
				w := m.EvalRule(n, 0, flag)
				countEvents(x, m, w)
				x.NonTrivial(m.ev.repZero > 0)
			}
			if len(c.In) < 40 {
				m := NewModel(c.G, s, 4*modelBudget)
				m.EvalEmbed(n)
			}
		}
		m := NewModel(c.G, s, 4*modelBudget)
		a := m.EvalRaw(c.G.roots())
		x.NonTrivial(a.Zero)
		x.ClassIf(a.Zero, "root matches nothing")
	}
	undef := hasUndef(c.G)
	x.NonTrivial(undef != "")
	x.ClassIf(undef != "", "undefined reference")
	g := xbnf.NewGrammar()
	for _, r := range c.G.Rules {
		rule, err := g.AddRule(r.Name + " = " + r.E.Print(nil))
		if err != nil || rule == nil {
			x.Failf("valid rule rejected: %v: %s", err, r.E.Print(nil))
		}
	}
	if ast, err := g.Eval(xbnf.NewCharstreamFromString("abc"), xbnf.LevelBasic); ast != nil || err == nil {
		x.Failf("Eval by a grammar not validated: tree %v, error %v", ast != nil, err)
	}
	if err := g.Validate(); (err != nil) != (undef != "") {
		x.Failf("Validate: %v, undefined: %q", err, undef)
	}
	useGrammar(g, names)
	for _, s := range c.In {
		for _, n := range names {
			what := fmt.Sprintf("rule %s on %q", n, s)
			useResult(x, what, g.EvalRule(n, s))
			for _, flag := range []int{flagS, flagNS, flagN} {
				useResult(x, what, g.GetRecord(n).Rule().Eval(g, xbnf.NewCharstreamFromString(s), flag))
			}
			r := g.EvalEmbed(n, s)
			if r.Node == nil {
				x.Failf("EvalEmbed of %s: no node: %v", what, r.Error)
			}
			useResult(x, what, r)
		}
		for _, level := range []int{xbnf.LevelRaw, xbnf.LevelBasic, xbnf.LevelNoVertual, xbnf.LevelDataOnly} {
			ast, err := g.Eval(xbnf.NewCharstreamFromString(s), level)
			useAST(x, fmt.Sprintf("Eval of %q at level %d", s, level), ast, err)
		}
		for _, n := range append(nearNames(c.G, c.Rule), "", "no such rule", " "+c.Rule, c.Rule+" ", "~"+c.Rule) {
			if r := g.EvalRule(n, s); r == nil || r.Node != nil || r.Error == nil {
				x.Failf("EvalRule of the undefined rule %q: no error", n)
			}
			if r := g.EvalEmbed(n, s); r == nil || r.Node != nil || r.Error == nil {
				x.Failf("EvalEmbed of the undefined rule %q: no error", n)
			}
		}
	}
}

// ---------------------------------------------------------------- C09 malformed definitions

// identGraph is what rules may reference, by the words in their definitions. It has more than what they do
// reference, so a grammar without a cycle in it surely is not left recursive.
func identGraph(text string) (map[string][]string, bool) {
	g := map[string][]string{}
	bigNumber := false
	for _, line := range strings.Split(text, "\n") {
		nd := strings.SplitN(line, "=", 2)
		if len(nd) != 2 {
			continue
		}
		name := strings.TrimSpace(nd[0])
		word, num := "", 0
		flush := func() {
			if word != "" {
				g[name] = append(g[name], word)
				word = ""
			}
		}
		for _, c := range nd[1] {
			isLetter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
			isDigit := c >= '0' && c <= '9'
			if isLetter || isDigit {
				word += string(c)
			} else {
				flush()
			}
			if isDigit {
				num++
				if num > 2 {
					bigNumber = true
				}
			} else if c != ' ' && c != '\t' && c != '\n' {
				num = 0
			}
		}
		flush()
	}
	return g, bigNumber
}

// cyclic also looks at the ends of words: \u0041b is a char and a reference
func cyclic(g map[string][]string) bool {
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		switch state[n] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n] = 1
		for _, w := range g[n] {
			for name := range g {
				if strings.HasSuffix(w, name) && visit(name) {
					return true
				}
			}
		}
		state[n] = 2
		return false
	}
	for n := range g {
		if visit(n) {
			return true
		}
	}
	return false
}

var defTokens = []string{"'a'", "\"b\"", "'ab'", "'a'-'b'", "\\u0041", "\\u", "'", "\"", "\\", "|", ">", "<", "(", ")", "[", "]", "{", "}", "!", "^", "~", "$", "#", "-", "*", "+", "<1,2>", "<2>", "<,>", "<9,1>", "r", "s", "EOF", "_x", "1", ",", "/", "//", " ", "\t", "\n", "=", "\r", "é", "\x00", "\xff", "\u00a0", "'\\'", "'\\\\'", "\"\\\"\"", "'\\u00", "'\\ud800'", "\"\"", "''", "()", "[]", "{}", "<>", "< 'a' 'b' >", "<'a' 'b'>", "@", "."}

// malform makes a definition of one rule surely invalid
func malform(t *rapid.T, e *Expr) (def string, how string) {
	// what may follow a constituent: the printed form of a whole rule, at top level
	d := e.Print(nil)
	all := []func() (string, string){
		func() (string, string) { return "| " + d, "choice operator first" },
		func() (string, string) { return d + " |", "choice operator last" },
		func() (string, string) { return d + " >", "ordered choice operator last" },
		func() (string, string) { return "'a' | | " + d, "two choice operators" },
		func() (string, string) { return "'a' > | " + d, "two choice operators" },
		func() (string, string) { return "( " + d, "group not closed" },
		func() (string, string) { return "[ " + d, "option not closed" },
		func() (string, string) { return "{ " + d, "repetition not closed" },
		func() (string, string) { return d + " )", "group not opened" },
		func() (string, string) { return d + " ]", "option not opened" },
		func() (string, string) { return d + " }", "repetition not opened" },
		func() (string, string) { return "( " + d + " ]", "mismatched brackets" },
		func() (string, string) { return "[ " + d + " }", "mismatched brackets" },
		func() (string, string) { return "{ " + d + " )", "mismatched brackets" },
		func() (string, string) { return "< 'a' 'b'", "block not closed" },
		func() (string, string) { return "< 'a' >", "block without close rule" },
		func() (string, string) { return "<>", "empty block" },
		func() (string, string) { return "< 'a' ^'b' >", "block without close rule" },
		func() (string, string) { return "< 'a' ^ >", "block without exclude rule" },
		func() (string, string) { return "< 'a' 'b' ! 'c' >", "block with something after !" },
		func() (string, string) { return "< 'a' 'b' 'c' >", "" },
		func() (string, string) { return d + " ()", "empty group" },
		func() (string, string) { return d + " [ ]", "empty option" },
		func() (string, string) { return "{ } " + d, "empty repetition" },
		func() (string, string) { return "", "no rule" },
		func() (string, string) { return "   // comment", "no rule" },
		func() (string, string) { return "~", "no rule" },
		func() (string, string) { return d + " 'abc", "quote not closed" },
		func() (string, string) { return d + " \"abc", "quote not closed" },
		func() (string, string) { return d + " 'abc\\'", "quote not closed" },
		func() (string, string) { return d + " ''", "empty chars" },
		func() (string, string) { return d + " \\u12G4", "bad escape" },
		func() (string, string) { return d + " \\u12", "bad escape" },
		func() (string, string) { return d + " \\x41", "bad escape" },
		func() (string, string) { return d + " '\\u12'", "bad escape" },
		func() (string, string) { return d + " \"x\\u00 41\"", "bad escape" },
		func() (string, string) { return d + " 'a'-", "bad range" },
		func() (string, string) { return d + " 'a'-b", "bad range" },
		func() (string, string) { return d + " 'a'-'bc'", "bad range" },
		func() (string, string) { return d + " 'a'-\\u00", "bad range" },
		func() (string, string) { return d + " 'a'-\"b\"", "bad range" },
		func() (string, string) { return d + " 'a'-''", "bad range" },
		func() (string, string) { return "{ " + d + " }<3,1>", "bad count" },
		func() (string, string) { return "{ " + d + " }<a>", "bad count" },
		func() (string, string) { return "{ " + d + " }<1,2", "bad count" },
		func() (string, string) { return "{ " + d + " }<-1>", "bad count" },
		func() (string, string) { return "{ " + d + " }<1,2,3>", "bad count" },
		func() (string, string) { return "{ " + d + " }<99999999999>", "bad count" },
		func() (string, string) { return "{ " + d + " }<1,99999999999>", "bad count" },
		func() (string, string) {
			return d + " " + string([]rune("@%&;:,.*+-!^=0123456789?`_é中\u200b/")[pick(t, 28)]), "invalid char"
		},
		func() (string, string) { return "'a' |" + "$| 'b'", "annotation before choice operator" },
		func() (string, string) { return "'a' ~| 'b'", "annotation before choice operator" },
		func() (string, string) {
			a := []string{"~", "#", "$", "~#", "$~#", "# $"}[pick(t, 6)]
			return d + " " + a + []string{"", " ", "\t"}[pick(t, 3)] + []string{"|", ">"}[pick(t, 2)] + " " + wrap(e).Print(nil), "annotation before choice operator"
		},
		func() (string, string) {
			return d + " " + []string{"|", ">"}[pick(t, 2)] + " " + []string{"~", "#", "$", "~#"}[pick(t, 4)] + []string{"", " ", " // 'x'"}[pick(t, 3)], "choice operator last"
		},
		func() (string, string) {
			return "'a' " + []string{"|", ">"}[pick(t, 2)] + " " + []string{"~", "#", "$"}[pick(t, 3)] + " | " + d, "two choice operators"
		},
		func() (string, string) { return d + " | // 'x'", "choice operator last" },
		func() (string, string) { return d + " / 'x'", "invalid char" },
		func() (string, string) { return "/ " + d, "invalid char" },
		func() (string, string) { return d + " /* x */", "invalid char" },
		func() (string, string) { // a short escape in front of a quote
			q := []string{"'", "\""}[pick(t, 2)]
			h := []string{"", "4", "04", "004"}[pick(t, 4)]
			return d + " " + []string{q, q + "b", ""}[pick(t, 3)] + "\\u" + h + q, "bad escape"
		},
		func() (string, string) {
			h := "\\u" + []string{"g041", "00G1", "004g", "0x41", "004 ", "+041", "-041", "００４１", "00:1", "0@41", "00`1"}[pick(t, 11)]
			return d + " " + []string{h, "'" + h + "'", "\"" + h + "\"", "'a'-" + h, "'a'-'" + h + "'"}[pick(t, 5)], "bad escape"
		},
		func() (string, string) {
			return d + " " + []string{"'a'-'z", "'a'-'\\u007A", "\\u0041-'z", "'a'-'\\'", "'\\u0041'-'\\u007A"}[pick(t, 5)], "bad range"
		},
		func() (string, string) { return d + " 'a'- 'b'", "bad range" },
		func() (string, string) { return d + " 'a'-( 'b' )", "bad range" },
		func() (string, string) { return d + " \\u0041-", "bad range" },
		func() (string, string) { return "{ " + d + " }<1,2", "bad count" },
		func() (string, string) { return "{ " + d + " }<1", "bad count" },
		func() (string, string) { return "{ " + d + " }<", "bad count" },
		func() (string, string) { return "{ " + d + " }<1;2>", "bad count" },
		func() (string, string) { return "{ " + d + " }<0x1>", "bad count" },
		func() (string, string) { return "{ " + d + " }<+1>", "bad count" },
		func() (string, string) { return "{ " + d + " }<1.5>", "bad count" },
		func() (string, string) { return "{ " + d + " }<*>", "bad count" },
		func() (string, string) { return "{ " + d + " }<5,4>", "bad count" },
		func() (string, string) { return "{ " + d + " }<10,9>", "bad count" },
		func() (string, string) { return "{ " + d + " }<100,99>", "bad count" },
		func() (string, string) { return "{ " + d + " }<4294967296>", "bad count" },
		func() (string, string) { return "< 'a' 'b' !", "block not closed" },
		func() (string, string) { return "< 'a' 'b' 'c' ", "block not closed" },
		func() (string, string) { return "< 'a' ^'b' 'c' ", "block not closed" },
		func() (string, string) { return "< 'a' ^'b' ^'c'>", "block without close rule" },
		func() (string, string) { return "< 'a' !>", "block without close rule" },
		func() (string, string) { return "< ! >", "empty block" },
		func() (string, string) { return "( " + d + " // comment )", "comment in a group" },
		func() (string, string) {
			a := []string{"~", "#", "$", "~#", "# $", "$  \t"}[pick(t, 6)]
			return []string{d + " " + a, d + " " + a + " // 'x'", "( " + d + " " + a + " )", "[ " + d + " " + a + "]", "{ " + d + a + " }", "< 'a' 'b' " + a + " >", "< 'a' 'b' " + a + " !>", "< 'a' ^" + a + " 'b' >", "( ( " + d + a + " ) 'b' )"}[pick(t, 9)], "annotation without a rule"
		},
		func() (string, string) { return d + " 'a'-'''", "bad range" },
	}
	f := all[pick(t, len(all))]
	def, how = f()
	if how == "invalid char" && strings.HasSuffix(def, "_") {
		how = "undefined"
	}
	return
}

func init() {
	register(&Check{
		ID: "C09", Quick: 1000000, Thorough: 20000000,
		Rule: "a case is a definition text: soup of definition tokens, a printed grammar with bytes inserted, deleted, replaced, duplicated or swapped, random bytes, or a valid rule with one of 50 structural defects put in (at top level or nested at a random place), loaded three ways; what is accepted is decided and compared with a reference parser of definitions, printed, and evaluated when it is surely not left recursive; non-trivial: a surely invalid definition, or one that the loader rejects, or accepted soup of three or more tokens",
		Draw: func(t *rapid.T) *Case {
			p := profBase()
			p.Rules, p.Depth, p.Ann = 3, 2, 2
			p = drawProf(t, p)
			switch pick(t, 8) {
			case 0, 1: // soup
				n := 1 + pick(t, 12)
				var b strings.Builder
				b.WriteString("r = ")
				for i := 0; i < n; i++ {
					b.WriteString(defTokens[pick(t, len(defTokens))])
					if pick(t, 3) == 0 {
						b.WriteString(" ")
					}
				}
				if pick(t, 2) == 0 {
					b.WriteString("\ns = 'a' | \"b\"\n")
				}
				return &Case{Kind: "soup", Raw: []byte(b.String()), N: n, In: []string{"ab a b"}}
			case 2, 3: // mutated
				g := drawGram(t, p)
				l := drawLayout(t, 30)
				raw := []byte(g.Text(&Layout{d: l}))
				for n := pick(t, 5); n > 0; n-- {
					raw = mutateBytes(t, raw)
				}
				return &Case{Kind: "mutated", Raw: raw, In: drawTexts(t, g, g.Rules[0].E, p, 2)}
			case 4: // bytes
				n := pick(t, 40)
				raw := make([]byte, n)
				for i := range raw {
					raw[i] = byte(pick(t, 256))
				}
				if pick(t, 2) == 0 {
					raw = append([]byte("r="), raw...)
				}
				return &Case{Kind: "bytes", Raw: raw, In: []string{"a"}}
			default:
				g := drawGram(t, p)
				i := pick(t, len(g.Rules))
				def, how := malform(t, g.Rules[i].E)
				c := &Case{Kind: "malformed", G: g, N: i, Def: def, Rule: how}
				if pick(t, 8) == 0 { // a name that's almost right
					near := nearNames(g, g.Rules[pick(t, len(g.Rules))].Name)
					if len(near) > 0 {
						c.Def = g.Rules[i].E.Print(nil) + " " + near[pick(t, len(near))]
						if k := g.Rules[i].E.K; k == "choice" {
							c.Def = "( " + g.Rules[i].E.Print(nil) + " ) " + near[pick(t, len(near))]
						}
						c.Rule = "undefined"
						return c
					}
				}
				if pick(t, 16) == 0 {
					return &Case{Kind: "duplicate", G: g, N: i, M: pick(t, len(g.Rules)), L: drawLayout(t, 20), L2: drawLayout(t, 6)}
				}
				if how != "" && how != "undefined" && how != "no rule" && how != "comment in a group" && pick(t, 2) == 0 {
					// nested
					for n := 1 + pick(t, 2); n > 0; n-- {
						switch pick(t, 4) {
						case 0:
							c.Def = "'x' ( " + c.Def + " ) 'y'"
						case 1:
							c.Def = "[ " + c.Def + " ] \"y\""
						case 2:
							c.Def = "{ " + c.Def + " }+"
						case 3:
							c.Def = "\"z\" | ( " + c.Def + " )"
						}
					}
				}
				return c
			}
		},
		Run: runC09,
	})
}

func mutateBytes(t *rapid.T, b []byte) []byte {
	n := len(b)
	out := append([]byte{}, b...)
	switch pick(t, 6) {
	case 0:
		i := pick(t, n+1)
		ins := []byte(defTokens[pick(t, len(defTokens))])
		out = append(append(append([]byte{}, b[:i]...), ins...), b[i:]...)
	case 1:
		if n > 0 {
			i := pick(t, n)
			out = append(append([]byte{}, b[:i]...), b[i+1:]...)
		}
	case 2:
		if n > 0 {
			out[pick(t, n)] = byte(pick(t, 256))
		}
	case 3:
		if n > 0 {
			out = out[:pick(t, n)]
		}
	case 4:
		if n > 0 {
			i := pick(t, n)
			j := i + 1 + pick(t, n-i)
			out = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		}
	case 5:
		if n > 1 {
			i := pick(t, n-1)
			out[i], out[i+1] = out[i+1], out[i]
		}
	}
	return out
}

// runDuplicate defines rule N of the grammar again, right behind it or at the end
func runDuplicate(c *Case, x *Ctx) {
	name, n := c.G.Rules[c.N].Name, len(c.G.Rules)
	l := &Layout{d: c.L2}
	at := []int{c.N + 1, n, c.N + 1 + l.pick(n-c.N)}[l.pick(3)]
	dup := &Gram{}
	dup.Rules = append(append(append(dup.Rules, c.G.Rules[:at]...), Rule{name, c.G.Rules[c.M].E}), c.G.Rules[at:]...)
	text := dup.Text(&Layout{d: c.L})
	x.NonTrivial(true)
	x.Class("duplicate")
	x.ClassIf(at == c.N+1, "duplicate right behind")
	if g, err := xbnf.NewGrammarFromString(text); err == nil || g != nil {
		x.Failf("rule %s is defined twice, accepted:\n%s", name, text)
	} else if !strings.Contains(err.Error(), name) {
		x.Failf("rule %s is defined twice, the error is: %v", name, err)
	}
	g := xbnf.NewGrammar()
	for i, r := range dup.Rules {
		var rule xbnf.IRule
		var err error
		if l.pick(2) == 0 {
			rule, err = g.AddRule(r.Name + " = " + r.E.Print(nil))
		} else {
			rule, err = g.ParseRule(r.Name, r.E.Print(nil))
		}
		if (i == at) != (err != nil) || (i == at) != isNilRule(rule) {
			x.Failf("adding rule %d (%s): %v", i, r.Name, err)
		}
		if l.pick(4) == 3 {
			g.Validate()
		}
	}
	if want := c.G.Rules[c.N].E.Print(nil); g.GetRule(name) == nil || mustGrammar(x, c.G.Text(nil)).GetRule(name).String() != g.GetRule(name).String() {
		x.Failf("rule %s is %v after it was defined again, want %s", name, g.GetRule(name), want)
	}
}

func runC09(c *Case, x *Ctx) {
	if c.Kind == "duplicate" {
		runDuplicate(c, x)
		return
	}
	if c.Kind == "malformed" {
		if c.Rule == "" { // a valid one: an escape rule without excludes
			x.Class("control: valid definition")
			if _, err := xbnf.NewGrammarFromString("r = " + c.Def); err != nil {
				x.Failf("valid definition %q rejected: %v", c.Def, err)
			}
			return
		}
		x.Class("malformed: " + c.Rule)
		x.NonTrivial(true)
		bad := c.G.Rules[c.N].Name + " = " + c.Def
		var b strings.Builder
		for i, r := range c.G.Rules {
			if i == c.N {
				b.WriteString(bad + "\n")
			} else {
				b.WriteString(r.Name + " = " + r.E.Print(nil) + "\n")
			}
		}
		g, err := xbnf.NewGrammarFromString(b.String())
		if err == nil || g != nil {
			x.Failf("%s: accepted, rule: %s", c.Rule, bad)
		}
		_ = err.Error()
		if c.Rule == "undefined" {
			return
		}
		g2 := xbnf.NewGrammar()
		if r, err := g2.AddRule(bad); err == nil || !isNilRule(r) {
			x.Failf("%s: AddRule accepted: %s", c.Rule, bad)
		}
		if r, err := g2.ParseRule(c.G.Rules[c.N].Name, c.Def); err == nil || !isNilRule(r) {
			x.Failf("%s: ParseRule accepted: %s", c.Rule, bad)
		}
		return
	}
	x.Class(c.Kind)
	text := string(c.Raw)
	g, err := xbnf.NewGrammarFromString(text)
	if (g == nil) == (err == nil) {
		x.Failf("grammar %v, error %v", g != nil, err)
	}
	x.ClassIf(err != nil, "rejected")
	x.NonTrivial(err != nil || c.N > 2)
	sameMeaning(x, text, g, err)
	graph, big := identGraph(text)
	// rule by rule
	g2 := xbnf.NewGrammar()
	for _, line := range strings.Split(text, "\n") {
		r, err := g2.AddRule(line)
		if (err == nil) == isNilRule(r) {
			x.Failf("AddRule(%q): rule %v, error %v", line, r, err)
		}
		nd := strings.SplitN(line, "=", 2)
		if len(nd) == 2 {
			r, err = g2.ParseRule(nd[0]+"q", nd[1])
			if (err == nil) == isNilRule(r) {
				x.Failf("ParseRule(%q, %q): rule %v, error %v", nd[0]+"q", nd[1], r, err)
			}
		}
	}
	var names []string
	for n := range graph {
		names = append(names, n)
	}
	useGrammar(g2, names)
	_ = g2.Validate()
	useGrammar(g2, names)
	if err != nil {
		_ = err.Error()
		return
	}
	useGrammar(g, names)
	x.Class("accepted")
	if big || cyclic(graph) {
		return
	}
	x.Class("accepted and evaluated")
	for _, n := range names {
		if g.GetRecord(n) == nil {
			continue
		}
		for _, s := range c.In {
			useResult(x, n, g.EvalRule(n, s))
		}
	}
	for _, s := range c.In {
		ast, err := g.Eval(xbnf.NewCharstreamFromString(s), xbnf.LevelDataOnly)
		useAST(x, "Eval", ast, err)
	}
}

// sameMeaning compares what the loader made of a text, g or err, and what it makes of it as one definition
// of several lines, with the reference parser
func sameMeaning(x *Ctx, text string, g *xbnf.Grammar, err error) {
	same := func(def string, e *Expr, rule xbnf.IRule) {
		back, err := refRule(rule.String())
		if err != nil {
			x.Failf("%q is printed as %q: %v", def, rule.String(), err)
		}
		if !reflect.DeepEqual(e, back) {
			x.Failf("%q is taken as %s, it means %s", def, back.Print(nil), e.Print(nil))
		}
	}
	ref, refErr := refGram(text)
	if (refErr == nil) != (err == nil) {
		x.Failf("loading %q: error %v, want error %v", text, err, refErr)
	}
	if err == nil {
		x.Class("same meaning")
		for _, r := range ref.Rules {
			if g.GetRule(r.Name) == nil {
				x.Failf("%q has no rule %s", text, r.Name)
			}
			same(text, r.E, g.GetRule(r.Name))
		}
	}
	name, def, ok := strings.Cut(text, "=")
	name = strings.TrimSpace(name)
	e, refErr := (*Expr)(nil), fmt.Errorf("no name and =")
	if ok && refName.MatchString(name) {
		e, refErr = refRule(def)
	}
	rule, err := xbnf.NewGrammar().AddRule(text)
	if (refErr == nil) != (err == nil) {
		x.Failf("adding %q: error %v, want error %v", text, err, refErr)
	}
	if err == nil {
		x.ClassIf(strings.Contains(text, "\n"), "same meaning, several lines")
		same(text, e, rule)
	}
}

func isNilRule(r xbnf.IRule) bool {
	return r == nil || fmt.Sprintf("%v", r) == "<nil>"
}
