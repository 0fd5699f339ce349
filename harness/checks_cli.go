package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C22 command line tool

var cliDir string // scratch directory of this process

func init() {
	register(&Check{
		ID: "C22", Quick: 40000, Thorough: 400000,
		Rule: "a case is a grammar whose rules are given to the tool in a file, by options, or both, with 0-3 texts and 0-3 files (missing files, empty files, broken and missing grammars and rules too), with and without node types; what the tool prints is compared with what the library gives for the same; non-trivial: a tree is printed",
		Draw: drawC22,
		Run:  runC22,
		Setup: func() {
			if cliPath() == "" {
				panic("XV_CLI isn't set")
			}
		},
		Assume: []string{"the binary named by XV_CLI was built from the same tree"},
	})
}

func cliPath() string { return os.Getenv("XV_CLI") }

func drawC22(t *rapid.T) *Case {
	p := profBase()
	p.Ann, p.Depth = 5, 2
	p.W = weights(map[string]int{"choice": 5, "rep": 6, "ref": 8})
	p = drawProf(t, p)
	if pick(t, 8) == 7 {
		p.Alpha, p.WSText = alphaLines, 4
	}
	c := drawEval(t, p, 3)
	c.M = pick(t, 64)
	if pick(t, 3) > 0 { // mostly what can be parsed as a whole: a sequence of root rules
		roots := c.G.roots()
		for i := range c.In {
			c.In[i] = ""
			d := &deriver{g: c.G, t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space), fuel: 24, max: 400}
			for n := 1 + pick(t, 3); n > 0 && len(roots) > 0; n-- {
				d.derive(c.G.find(roots[pick(t, len(roots))]), false)
			}
			c.In[i] = string(d.out)
		}
	}
	// N: how many of the rules are in the file, the others are options
	c.N = pick(t, len(c.G.Rules)+1)
	if pick(t, 3) == 0 {
		c.N = len(c.G.Rules)
	}
	for n := pick(t, 5); n > 0; n-- {
		o := Op{K: []string{"text", "file"}[pick(t, 2)], S: c.In[pick(t, len(c.In))], M: pick(t, 4)}
		switch pick(t, 16) {
		case 15:
			o.S = ""
		case 14:
			if o.K == "file" {
				o.K = "missing"
			}
		}
		o.S = strings.ReplaceAll(o.S, "\x00", "a")
		c.Ops = append(c.Ops, o)
	}
	if pick(t, 256) == 0 { // a long file
		c.G = &Gram{Rules: []Rule{{"w", &Expr{K: "rep", Kids: []*Expr{eRange('a', 'z')}, Min: 1}}}}
		c.N, c.Kind = 1, "long"
		c.Ops = []Op{{K: "file", S: "abc d\u2028ef\n", N: 1 + []int{100, 400, 3300, 6600, 13200}[pick(t, 5)]}}
		return c
	}
	switch pick(t, 10) {
	case 9:
		c.Kind = []string{"bad rule", "bad file", "no file", "undefined", "nothing", "help"}[pick(t, 6)]
	}
	return c
}

func runC22(c *Case, x *Ctx) {
	for _, r := range c.G.Rules { // the definitions become arguments
		if strings.ContainsRune(r.E.Print(nil), 0) {
			x.Skip("NUL in an argument")
		}
	}
	for i, o := range c.Ops {
		if c.Kind == "long" {
			long := *c
			long.Ops = append([]Op{}, c.Ops...)
			c = &long
			c.Ops[i].S = strings.Repeat(o.S, o.N)
			x.Class("long file")
			continue
		}
		m := NewModel(c.G, o.S, modelBudget)
		m.EvalRaw(c.G.roots())
	}
	if cliDir == "" {
		d, err := os.MkdirTemp("", "xv-cli-")
		if err != nil {
			panic(err)
		}
		cliDir = d
	}
	dir, err := os.MkdirTemp(cliDir, "c")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	put := func(name, text string) string {
		f := filepath.Join(dir, name)
		if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
			panic(err)
		}
		return f
	}
	// the grammar, by options and by the library
	var args, rules []string
	gfile := ""
	inFile := c.G.clone()
	inFile.Rules = inFile.Rules[:c.N]
	for _, r := range c.G.Rules[c.N:] {
		rules = append(rules, r.Name+" = "+r.E.Print(nil))
	}
	if inFile.undefined() { // a grammar file has to be complete
		inFile.Rules = nil
		rules = nil
		for _, r := range c.G.Rules {
			rules = append(rules, r.Name+" = "+r.E.Print(nil))
		}
	}
	switch c.Kind {
	case "bad rule":
		i := c.M % (len(rules) + 1)
		rules = append(append(append([]string{}, rules[:i]...), []string{"zz = ( 'a'", "zz", "9 = 'a'", ""}[c.M%4]), rules[i:]...)
	case "undefined":
		rules = append(rules, "zz = no_such_rule 'a'")
	}
	gtext := ""
	if len(inFile.Rules) > 0 {
		gtext = inFile.Text(nil)
	}
	if c.Kind == "bad file" {
		gtext += "zz = [ 'a'\n"
	}
	if gtext != "" {
		gfile = put("g.xbnf", gtext)
	}
	if c.Kind == "no file" {
		gfile = filepath.Join(dir, "none.xbnf")
	}
	if c.Kind == "nothing" {
		gfile, rules = "", nil
	}
	opt := func(name, value string) {
		switch (c.M >> 2) & 3 {
		case 0, 1:
			args = append(args, "-"+name, value)
		case 2:
			args = append(args, "-"+name+"="+value)
		case 3:
			args = append(args, "--"+name, value)
		}
	}
	if gfile != "" {
		opt("xbnf", gfile)
	} else if c.M&32 != 0 && len(rules) > 0 {
		opt("xbnf", "")
	}
	types := c.M&1 != 0
	if types {
		args = append(args, []string{"-showNodeType", "-showNodeType=true", "--showNodeType"}[c.M%3])
	}
	type todo struct {
		header, text string
		read, file   bool
	}
	var texts, files []todo
	for i, o := range c.Ops {
		switch o.K {
		case "text":
			opt("text", o.S)
			texts = append(texts, todo{"\nParsing text: " + o.S + "\n", o.S, true, false})
		case "file":
			f := put(fmt.Sprintf("in%d", i), o.S)
			if o.M == 3 { // the same file once more, or the same text in another file
				for j, p := range c.Ops[:i] {
					if p.K == "file" && p.S == o.S {
						f = filepath.Join(dir, fmt.Sprintf("in%d", j))
					}
				}
			}
			opt("file", f)
			files = append(files, todo{"\nParsing file: " + f + "\n", o.S, true, true})
		case "missing":
			f := filepath.Join(dir, "missing")
			opt("file", f)
			files = append(files, todo{"\nParsing file: " + f + "\n", "", false, true})
		}
		if i == 1 { // rules may come in between texts
			for _, r := range rules {
				opt("rule", r)
			}
		}
	}
	if len(c.Ops) < 2 {
		for _, r := range rules {
			opt("rule", r)
		}
	}
	if c.Kind == "help" {
		args = append(args, "-help")
	}
	out, code, ended := runCLI(args)
	what := fmt.Sprintf("xbnf %q", args)
	if !ended {
		x.Failf("%s doesn't end", what)
	}
	if code != 0 {
		x.Failf("%s ends with %d: %s", what, code, clip(out, 2000))
	}
	rest := out
	expect := func(want string) {
		if !strings.HasPrefix(rest, want) {
			x.Failf("%s prints\n%s\nwant here: %q\ngot: %q", what, clip(out, 3000), want, clip(rest, 300))
		}
		rest = rest[len(want):]
	}
	fails := func(msg string) { // an error, and nothing more
		x.Class("error printed")
		if !strings.HasPrefix(rest, "ERROR: ") || len(strings.TrimSpace(rest)) < 8 {
			x.Failf("%s prints\n%s\nwant an error (%s) here: %q", what, clip(out, 3000), msg, clip(rest, 300))
		}
		if msg != "" && !strings.Contains(rest, msg) {
			x.Failf("%s prints\n%s\nwant the error %q here: %q", what, clip(out, 3000), msg, clip(rest, 300))
		}
		if strings.Contains(rest, "\nParsing ") || strings.Contains(rest, "Grammar:") || strings.Contains(rest, "Abstract Syntax Tree") {
			x.Failf("%s goes on after an error:\n%s", what, clip(out, 3000))
		}
	}
	if c.Kind == "help" {
		if strings.Contains(out, "Parsing ") || strings.Contains(out, "Adding ") || !strings.Contains(out, "-xbnf") {
			x.Failf("%s prints\n%s", what, clip(out, 3000))
		}
		return
	}
	if gfile == "" && len(rules) == 0 {
		if len(args) == 0 {
			if !strings.Contains(out, "-xbnf") {
				x.Failf("without arguments there is no help: %s", clip(out, 2000))
			}
			return
		}
		fails("")
		return
	}
	var g *xbnf.Grammar
	if gfile != "" {
		expect("Adding rule(s) from XBNF file: " + gfile + "\n")
		g, err = xbnf.NewGrammarFromFile(gfile)
		if err != nil {
			fails(err.Error())
			return
		}
	} else {
		g = xbnf.NewGrammar()
	}
	for _, r := range rules {
		expect("Adding rule: " + r + "\n")
		if _, err := g.AddRule(r); err != nil {
			fails(err.Error())
			return
		}
	}
	if err := g.Validate(); err != nil {
		msg := err.Error()
		if c.Kind == "undefined" { // which undefined rule is found first depends on the order of a map
			msg = "no_such_rule"
		}
		fails(msg)
		x.Class("undefined rule")
		return
	}
	expect("Grammar:\n")
	i := len(rest)
	if len(texts)+len(files) > 0 {
		if i = strings.Index(rest, "\nParsing "); i < 0 {
			x.Failf("%s prints\n%s\nnothing is parsed", what, clip(out, 3000))
		}
	}
	printed := rest[:i]
	rest = rest[i:]
	gl := parseListing(x, dedent(x, printed)).String()
	if want := parseListing(x, g.Serialize(false)).String(); gl != want {
		x.Failf("%s prints the grammar %s\nwant %s", what, gl, want)
	}
	conf := xbnf.DefaultNodeTreeConfig()
	conf.PrintRuleType = types
	for _, td := range append(texts, files...) {
		expect(td.header)
		if !td.read {
			fails("")
			return
		}
		ast, err := g.Eval(xbnf.NewCharstreamFromString(td.text), xbnf.LevelBasic)
		if err != nil {
			if len(g.Serialize(false)) > 0 && len(c.G.roots()) == 1 && c.Kind == "" {
				fails(strings.TrimSpace(err.Error()))
			} else {
				fails("") // which error is found first depends on the order of root rules
			}
			return
		}
		// the tree without virtual and non-data nodes; nodes that become neighbours may be merged or not
		wants := map[string]bool{}
		for _, merge := range []bool{false, true} {
			ast, err := g.Eval(xbnf.NewCharstreamFromString(td.text), xbnf.LevelBasic)
			if err != nil {
				x.Failf("evaluating %q again fails: %v", td.text, err)
			}
			ast.RemoveVirtualNodes()
			if merge {
				ast.MergeStickyNodes()
			}
			ast.RemoveNonDataNodes()
			ast.RemoveRedundantNodes()
			wants[ast.StringTree(conf)+"\n"] = true
		}
		_ = ast
		x.ClassIf(len(wants) > 1, "merging once more makes a difference")
		var ordered []string
		for w := range wants {
			ordered = append(ordered, w)
		}
		// longest first: one may be the beginning of the other
		sort.Slice(ordered, func(i, j int) bool { return len(ordered[i]) > len(ordered[j]) })
		found := false
		for _, w := range ordered {
			if strings.HasPrefix(rest, w) && (len(rest) == len(w) || rest[len(w)] == '\n') {
				rest = rest[len(w):]
				found = true
				break
			}
		}
		if !found {
			x.Failf("%s prints\n%s\nwant the tree\n%s", what, clip(out, 4000), strings.Join(ordered, "or\n"))
		}
		x.NonTrivial(true)
		x.Class("tree printed")
		x.ClassIf(td.file, "tree of a file")
	}
	if strings.TrimSpace(rest) != "" {
		x.Failf("%s prints something more: %q", what, clip(rest, 1000))
	}
}

// dedent takes the indentation away
func dedent(x *Ctx, s string) string {
	lines := strings.Split(strings.TrimRight(s, " \n"), "\n")
	for i, l := range lines {
		if strings.TrimSpace(l) != "" && !strings.HasPrefix(l, "    ") {
			x.Failf("line %q of the printed grammar isn't indented:\n%s", l, s)
		}
		lines[i] = strings.TrimPrefix(l, "    ")
	}
	return strings.Join(lines, "\n")
}

func runCLI(args []string) (out string, code int, ended bool) {
	for try := 0; ; try++ {
		cmd := exec.Command(cliPath(), args...)
		var b strings.Builder
		cmd.Stdout, cmd.Stderr = &b, &b
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=single", "GOMAXPROCS=2"}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		inTime := timer.Stop()
		if err == nil {
			return b.String(), 0, true
		}
		if !inTime {
			return b.String(), -1, false
		}
		if cmd.ProcessState.ExitCode() < 0 && try < 2 { // ended from outside
			continue
		}
		return b.String(), cmd.ProcessState.ExitCode(), true
	}
}
