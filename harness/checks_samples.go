package main

import (
	"encoding/json"
	"fmt"
	"io"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- the shipped grammars, written down again

func eChar(s string) *Expr         { return &Expr{K: "char", Lo: []rune(s)[0]} }
func eChars(s string) *Expr        { return &Expr{K: "chars", T: s} }
func eStr(s string) *Expr          { return &Expr{K: "string", T: s} }
func eRange(a, b rune) *Expr       { return &Expr{K: "range", Lo: a, Hi: b} }
func eRef(s string) *Expr          { return &Expr{K: "ref", T: s} }
func eCat(k ...*Expr) *Expr        { return &Expr{K: "cat", Kids: k} }
func eOr(k ...*Expr) *Expr         { return &Expr{K: "choice", Groups: [][]*Expr{k}} }
func eOpt(k *Expr) *Expr           { return &Expr{K: "opt", Kids: []*Expr{k}} }
func eRep(k *Expr, min int) *Expr  { return &Expr{K: "rep", Kids: []*Expr{k}, Min: min} }
func eGroup(k *Expr) *Expr         { return &Expr{K: "group", Kids: []*Expr{k}} }
func eAnn(a string, k *Expr) *Expr { k.Ann = a; return k }
func eChoiceOf(chars string) *Expr {
	var k []*Expr
	for _, r := range chars {
		k = append(k, eChar(string(r)))
	}
	return eOr(k...)
}

var jsonGram = &Gram{Rules: []Rule{
	{"digit", eChoiceOf("0123456789")},
	{"integer", eCat(eRef("digit"), eRep(eRef("digit"), 0))},
	{"float", eCat(eRef("integer"), eChar("."), eRef("digit"), eRep(eRef("digit"), 0))},
	{"number", eCat(eStr(""), eOpt(eChar("-")), eOr(eRef("integer"), eRef("float")))},
	{"string", &Expr{K: "block", Open: eAnn("#", eChar(`"`)), Esc: eChar(`\`), Ex: []*Expr{eChar("\n")}, Close: eAnn("#", eChar(`"`))}},
	{"bool", eOr(eStr("true"), eStr("false"))},
	{"literal", eOr(eRef("number"), eRef("string"), eRef("bool"), eStr("null"))},
	{"array", eCat(eAnn("#", eStr("[")), eOpt(eCat(eRef("value"), eRep(eCat(eAnn("#", eStr(",")), eRef("value")), 0))), eAnn("#", eStr("]")))},
	{"kv", eCat(eRef("string"), eAnn("#", eStr(":")), eRef("value"))},
	{"object", eCat(eAnn("#", eStr("{")), eOpt(eCat(eRef("kv"), eRep(eCat(eAnn("#", eStr(",")), eRef("kv")), 0))), eAnn("#", eStr("}")))},
	{"value", eOr(eRef("literal"), eRef("array"), eRef("object"))},
	{"json", eRef("value")},
}}

var arithGram = &Gram{Rules: []Rule{
	{"exprs", eCat(eRef("expr"), eRep(eCat(eRep(eOr(eStr("\n"), eStr("\r")), 1), eRef("expr")), 0))},
	{"expr", eCat(eRef("term"), eRep(eCat(eRef("term_operator"), eRef("term")), 0))},
	{"term_operator", eGroup(eOr(eStr("+"), eStr("-")))},
	{"term", eCat(eRef("factor"), eRep(eCat(eRef("factor_operator"), eRef("factor")), 0))},
	{"factor_operator", eGroup(eOr(eStr("*"), eStr("/")))},
	{"factor", eOr(eRef("literal"), eRef("variable"), eGroup(eCat(eStr("("), eRef("expr"), eStr(")"))))},
	{"literal", eOr(eRef("integer"), eRef("float"))},
	{"integer", eOr(eRef("integer_dec"), eRef("integer_oct"), eRef("integer_hex"), eRef("integer_bin"))},
	{"integer_dec", eCat(eOpt(eChar("-")), eRef("digit_dec"), eRep(eRef("digit_dec"), 0))},
	{"integer_hex", eCat(eChars("0x"), eRef("digit_hex"), eRep(eRef("digit_hex"), 0))},
	{"integer_oct", eCat(eChars("0o"), eRef("digit_oct"), eRep(eRef("digit_oct"), 0))},
	{"integer_bin", eCat(eChars("0b"), eRef("digit_bin"), eRep(eRef("digit_bin"), 0))},
	{"float", eCat(eOpt(eChar("-")), eOpt(eCat(eRef("digit_dec"), eRep(eRef("digit_dec"), 0))), eChar("."), eRef("digit_dec"), eRep(eRef("digit_dec"), 0))},
	{"digit_dec", eRange('0', '9')},
	{"digit_hex", eOr(eRange('0', '9'), eRange('A', 'F'), eRange('a', 'f'))},
	{"digit_oct", eRange('0', '7')},
	{"digit_bin", eRange('0', '1')},
	{"variable", eCat(eRef("letter"), eRep(eOr(eRef("letter"), eRef("digit_dec"), eChar("_")), 0))},
	{"letter", eOr(eRef("letter_lowercase"), eRef("letter_uppercase"))},
	{"letter_uppercase", eRange('A', 'Z')},
	{"letter_lowercase", eRange('a', 'z')},
}}

func propWS(ann string, names ...string) *Expr {
	var k []*Expr
	for _, n := range names {
		k = append(k, eRef(n))
	}
	return eAnn(ann, eRep(eOr(k...), 0))
}

var propGram = &Gram{Rules: []Rule{
	{"SPACE", eChar(" ")},
	{"TAB", eChar("\t")},
	{"NL", eChar("\n")},
	{"key", eCat(propWS("~", "SPACE", "TAB", "NL"), &Expr{K: "block", Open: eStr(""), Esc: eChar(`\`), Ex: []*Expr{eRef("NL")}, Close: eAnn("~", eGroup(eOr(eStr("="), eStr(":"))))})},
	{"value", eCat(propWS("~", "SPACE", "TAB", "NL"), &Expr{K: "block", Open: eStr(""), Esc: eChar(`\`), Close: eAnn("~", eGroup(eOr(eRef("NL"), &Expr{K: "eof"})))})},
	{"emptykey", eCat(propWS("~", "SPACE", "TAB", "NL"), &Expr{K: "block", Open: eStr(""), Ex: []*Expr{eGroup(eOr(eChar("="), eChar(":")))}, Close: eAnn("~", eGroup(eOr(eRef("NL"), &Expr{K: "eof"})))})},
	{"property", eCat(eOr(eRef("emptykey"), eGroup(eCat(eRef("key"), eRef("value")))), propWS("~", "SPACE", "NL", "TAB"))},
}}

var samples = map[string]*Gram{"json": jsonGram, "arithmetic": arithGram, "property": propGram}
var sampleNames = []string{"json", "arithmetic", "property"}
var sampleG = map[string]*xbnf.Grammar{}

func sample(x *Ctx, name string) *xbnf.Grammar {
	if g := sampleG[name]; g != nil {
		return g
	}
	g, err := xbnf.NewGrammarFromFile(filepath.Join(repoDir(), "main", "samples", name, name+".xbnf"))
	if err != nil || g == nil {
		x.Failf("the shipped %s grammar doesn't load: %v", name, err)
	}
	sampleG[name] = g
	return g
}

// ---------------------------------------------------------------- C19

func init() {
	register(&Check{
		ID: "C19", Quick: 200000, Thorough: 4000000,
		Rule: "a case is (a) a JSON value in a random layout, whose keys and values are compared with those in the data-only tree; (b) a sequence of JSON tokens, accepted when encoding/json does; (c) arithmetic expressions, one per line, whose tree must give back the same expressions; (d) a property list; or (e) a derived and mutated text for a rule of a shipped grammar, compared with the model of the grammar as documented; non-trivial: more than one value, operator or property, or the rule matches",
		Draw: drawC19,
		Run:  runC19,
	})
}

// ---- JSON

type jv struct { // a JSON value in canonical text
	text  string // as written
	canon string
}

// an escape that escapes nothing is kept twice in the text of a block, which the existing tests want: the number
// of backslashes next to each other is not compared
var oneBackslash = regexp.MustCompile(`\\+`)

func jsonString(t *rapid.T) (text, canon string) {
	alpha := []rune("ab c{}[]:,\"\"é\U0001F600\t/'1 \u2028")
	var a, b strings.Builder
	n := pick(t, 8)
	if pick(t, 32) == 0 {
		n = 8 + pick(t, 300)
	}
	for ; n > 0; n-- {
		r := alpha[pick(t, len(alpha))]
		if pick(t, 5) == 0 { // another escape, which stays in the text
			e := []string{"\\\\", "\\n", "\\u00e9", "\\/", "\\t"}[pick(t, 5)]
			a.WriteString(e)
			b.WriteString(e)
			continue
		}
		if r == '"' {
			a.WriteRune('\\')
		}
		a.WriteRune(r)
		b.WriteRune(r)
	}
	return `"` + a.String() + `"`, "s:" + fmt.Sprintf("%q", oneBackslash.ReplaceAllString(b.String(), "\\"))
}

// jsonTight is a document without whitespace
var jsonTight bool

func jsonWS(t *rapid.T) string {
	if jsonTight {
		return ""
	}
	return []string{"", "", "", " ", "\n", "  \t", "\r\n "}[pick(t, 7)]
}

// longDigits is a number with more digits than numbers use to have
func longDigits(t *rapid.T) string {
	b := []byte{byte('1' + pick(t, 9))}
	for n := []int{7, 8, 9, 14, 15, 16, 17, 19, 31, 32, 33, 63, 64, 65, 99}[pick(t, 15)]; n > 0; n-- {
		b = append(b, byte('0'+pick(t, 10)))
	}
	return string(b)
}

func jsonValue(t *rapid.T, depth int) jv {
	k := 0
	if depth > 0 {
		k = pick(t, 9)
	} else {
		k = pick(t, 5)
	}
	switch k {
	case 0:
		if pick(t, 3) == 0 {
			n := fmt.Sprint(pick(t, 10))
			return jv{n, "n:" + n}
		}
		n := fmt.Sprint(pick(t, 1000))
		if pick(t, 8) == 0 {
			n = longDigits(t)
		}
		if pick(t, 2) == 0 {
			n = "-" + n
		}
		if pick(t, 2) == 0 {
			n += "." + fmt.Sprintf("%03d", pick(t, 1000))
			if pick(t, 8) == 0 {
				n += longDigits(t)
			}
		}
		return jv{n, "n:" + n}
	case 1, 2:
		s, c := jsonString(t)
		return jv{s, c}
	case 3:
		s := []string{"true", "false"}[pick(t, 2)]
		return jv{s, "b:" + s}
	case 4:
		return jv{"null", "null"}
	case 5, 6:
		var a, b strings.Builder
		a.WriteString("[" + jsonWS(t))
		b.WriteString("[")
		n, d, digits := pick(t, 4), depth-1, false
		if pick(t, 6) == 0 {
			n, d, digits = n+8, 0, pick(t, 3) == 0
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				a.WriteString("," + jsonWS(t))
				b.WriteString(",")
			}
			v := jv{}
			if digits { // all of the same length
				v.text = fmt.Sprint(pick(t, 10))
				v.canon = "n:" + v.text
			} else {
				v = jsonValue(t, d)
			}
			a.WriteString(v.text + jsonWS(t))
			b.WriteString(v.canon)
		}
		return jv{a.String() + "]", b.String() + "]"}
	}
	var a, b strings.Builder
	a.WriteString("{" + jsonWS(t))
	b.WriteString("{")
	n, d := pick(t, 4), depth-1
	if pick(t, 6) == 0 {
		n, d = n+8, 0
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			a.WriteString("," + jsonWS(t))
			b.WriteString(",")
		}
		s, c := jsonString(t)
		v := jsonValue(t, d)
		a.WriteString(s + jsonWS(t) + ":" + jsonWS(t) + v.text + jsonWS(t))
		b.WriteString(c + ":" + v.canon)
	}
	return jv{a.String() + "}", b.String() + "}"}
}

// jsonCanon reads a document from a data-only tree
func jsonCanon(x *Ctx, n *xbnf.Node) string {
	var sub []*xbnf.Node
	nearest(n, map[string]bool{"string": true, "number": true, "bool": true, "array": true, "object": true, "kv": true, "value": true, "literal": true}, &sub)
	switch n.RuleName {
	case "string":
		return "s:" + fmt.Sprintf("%q", oneBackslash.ReplaceAllString(string(n.Text()), "\\"))
	case "number":
		return "n:" + string(n.Text())
	case "bool":
		return "b:" + string(n.Text())
	case "array", "object":
		var parts []string
		for _, k := range sub {
			parts = append(parts, jsonCanon(x, k))
		}
		s := strings.Join(parts, ",")
		if n.RuleName == "array" {
			return "[" + s + "]"
		}
		return "{" + s + "}"
	case "kv":
		if len(sub) == 2 && sub[0].RuleName == "string" {
			return jsonCanon(x, sub[0]) + ":" + jsonCanon(x, sub[1])
		}
	case "value", "literal", "json":
		if len(sub) == 1 {
			return jsonCanon(x, sub[0])
		}
		if len(sub) == 0 {
			return string(n.Text())
		}
	}
	x.Failf("odd node %s", dump(n))
	return ""
}

// nearest finds the nearest nodes below n that have one of the names
func nearest(n *xbnf.Node, names map[string]bool, out *[]*xbnf.Node) {
	for _, k := range n.ChildNodes {
		if names[k.RuleName] {
			*out = append(*out, k)
		} else {
			nearest(k, names, out)
		}
	}
}

var jsonTokens = []string{"{", "}", "[", "]", ",", ":", `"k"`, `""`, "1", "-2.5", "true", "null"}

func jsonAccepts(s string) bool {
	d := json.NewDecoder(strings.NewReader(s))
	n := 0
	for {
		var v any
		err := d.Decode(&v)
		if err == io.EOF {
			return n > 0
		}
		if err != nil {
			return false
		}
		n++
	}
}

// ---- arithmetic

type arith struct {
	text  string
	canon string
	prec  int // 0 sum, 1 product, 2 factor
}

func arithWS(t *rapid.T) string {
	return []string{"", "", " ", "  ", "\t", "\n"}[pick(t, 6)]
}

func arithExpr(t *rapid.T, depth int) arith {
	if depth == 0 || pick(t, 4) == 0 {
		s := ""
		switch pick(t, 9) {
		case 0, 1:
			s = fmt.Sprint(pick(t, 200))
		case 2:
			s = "-" + fmt.Sprint(pick(t, 50))
		case 3:
			s = fmt.Sprintf("%d.%d", pick(t, 20), pick(t, 100))
		case 4:
			s = "-." + fmt.Sprint(pick(t, 100))
		case 5:
			s = []string{"0xFf0", "0o17", "0b101", "0x0", "0b0", "00", ".5"}[pick(t, 7)]
		default:
			s = []string{"x", "Age", "a_1", "Z", "x0b1", "oB_"}[pick(t, 6)]
		}
		if pick(t, 24) == 0 {
			s = []string{"", "-", "0x", "0b1", "a", "Name_", "0.", "-12.", "."}[pick(t, 9)]
			d := longDigits(t)
			if s == "0b1" {
				d = strings.Map(func(r rune) rune { return '0' + r%2 }, d)
			}
			s += d
		}
		return arith{s, s, 2}
	}
	if pick(t, 6) == 0 {
		e := arithExpr(t, depth-1)
		return arith{"(" + arithWS(t) + e.text + arithWS(t) + ")", e.canon, 2}
	}
	op := []string{"+", "-", "*", "/"}[pick(t, 4)]
	prec := 0
	if op == "*" || op == "/" {
		prec = 1
	}
	a, b := arithExpr(t, depth-1), arithExpr(t, depth-1)
	if a.prec < prec {
		a.text = "(" + a.text + ")"
	}
	if b.prec <= prec {
		b.text = "(" + arithWS(t) + b.text + ")"
	}
	return arith{a.text + arithWS(t) + op + arithWS(t) + b.text, "(" + a.canon + op + b.canon + ")", prec}
}

func arithFold(x *Ctx, n *xbnf.Node, operand, operator string, f func(*xbnf.Node) string) string {
	var sub []*xbnf.Node
	nearest(n, map[string]bool{operand: true, operator: true}, &sub)
	out := ""
	for i, k := range sub {
		switch {
		case i%2 == 0 && k.RuleName == operand:
			v := f(k)
			if i > 0 {
				out += v + ")"
			} else {
				out = v
			}
		case i%2 == 1 && k.RuleName == operator:
			out = "(" + out + string(k.Text())
		default:
			x.Failf("odd node %s", dump(n))
		}
	}
	if len(sub)%2 == 0 {
		x.Failf("odd node %s", dump(n))
	}
	return out
}

func arithCanon(x *Ctx, expr *xbnf.Node) string {
	return arithFold(x, expr, "term", "term_operator", func(term *xbnf.Node) string {
		return arithFold(x, term, "factor", "factor_operator", func(factor *xbnf.Node) string {
			var sub []*xbnf.Node
			nearest(factor, map[string]bool{"literal": true, "variable": true, "expr": true}, &sub)
			if len(sub) != 1 {
				x.Failf("odd node %s", dump(factor))
			}
			if sub[0].RuleName == "expr" {
				return arithCanon(x, sub[0])
			}
			return string(sub[0].Text())
		})
	})
}

// ---- properties

func propText(t *rapid.T, alpha, first string, esc string) (text, canon string) {
	var a, b strings.Builder
	f := []rune(first)
	r := f[pick(t, len(f))]
	a.WriteRune(r)
	b.WriteRune(r)
	al := []rune(alpha)
	es := []rune(esc)
	n := pick(t, 8)
	if pick(t, 32) == 0 {
		n = 8 + pick(t, 300)
	}
	for ; n > 0; n-- {
		if len(es) > 0 && pick(t, 5) == 0 {
			r = es[pick(t, len(es))]
			a.WriteString("\\" + string(r))
		} else {
			r = al[pick(t, len(al))]
			a.WriteRune(r)
		}
		b.WriteRune(r)
	}
	return a.String(), b.String()
}

func drawC19(t *rapid.T) *Case {
	switch pick(t, 6) {
	case 0:
		jsonTight = pick(t, 3) == 0
		v := jsonValue(t, 1+pick(t, 4))
		return &Case{Kind: "json", In: []string{jsonWS(t) + v.text, v.canon}}
	case 1:
		var toks []string
		if pick(t, 2) == 0 {
			for n := 1 + pick(t, 8); n > 0; n-- {
				toks = append(toks, jsonTokens[pick(t, len(jsonTokens))])
			}
		} else { // a document with one or two tokens changed
			toks = jsonDocTokens(t, 3)
			for n := pick(t, 3); n > 0 && len(toks) > 0; n-- {
				i := pick(t, len(toks))
				switch pick(t, 3) {
				case 0:
					toks = append(toks[:i], toks[i+1:]...)
				case 1:
					toks[i] = jsonTokens[pick(t, len(jsonTokens))]
				default:
					toks = append(toks[:i], append([]string{jsonTokens[pick(t, len(jsonTokens))]}, toks[i:]...)...)
				}
			}
		}
		return &Case{Kind: "json tokens", In: []string{strings.Join(toks, " ")}}
	case 2:
		c := &Case{Kind: "arithmetic"}
		var lines, canon []string
		lots := 1 + pick(t, 4)
		if pick(t, 8) == 0 {
			lots += 8
		}
		for n := lots; n > 0; n-- {
			e := arithExpr(t, pick(t, 5))
			if strings.HasPrefix(e.text, "-") && len(lines) > 0 {
				e.text = "(" + e.text + ")" // or it would go on with the line before
			}
			lines, canon = append(lines, e.text), append(canon, e.canon)
		}
		sep := []string{"\n", "\n\n", "  \n", "\r\n", "\n \n"}[pick(t, 5)]
		c.In = []string{[]string{"", "", " ", "\n"}[pick(t, 4)] + strings.Join(lines, sep), strings.Join(canon, ";")}
		return c
	case 3:
		c := &Case{Kind: "property"}
		var text, canon strings.Builder
		n := 1 + pick(t, 5)
		if pick(t, 8) == 0 {
			n += 10
		}
		for i := 0; i < n; i++ {
			text.WriteString([]string{"", "", "  ", "\t", "\n"}[pick(t, 5)])
			if pick(t, 5) == 0 {
				s, v := propText(t, "ab c#\"'", "ab#\"", "")
				text.WriteString(s)
				canon.WriteString("emptykey=" + v + ";")
			} else {
				s, v := propText(t, "ab c#\"'", "ab#\"", "=:\n")
				text.WriteString(s + []string{"=", ":"}[pick(t, 2)] + []string{"", " ", "\t "}[pick(t, 3)])
				canon.WriteString("key=" + v + ";")
				s, v = propText(t, "ab c#=:\"'", "ab#=:", "\n")
				text.WriteString(s)
				canon.WriteString("value=" + v + ";")
			}
			if i < n-1 || pick(t, 2) == 0 {
				text.WriteString("\n")
			}
		}
		c.In = []string{text.String(), canon.String()}
		return c
	}
	c := &Case{Kind: "model", Rule: sampleNames[pick(t, 3)]}
	g := samples[c.Rule]
	c.N = pick(t, len(g.Rules))
	if pick(t, 2) == 0 {
		c.N = map[string]int{"json": 11, "arithmetic": 0, "property": 6}[c.Rule]
	}
	p := Prof{Alpha: "a1\"\\[]{},:=-+*/().0xb", Space: " \n\t"}
	c.In = drawTexts(t, g, g.Rules[c.N].E, p, 2)
	for i, s := range c.In {
		if r := []rune(s); len(r) > 120 {
			c.In[i] = string(r[:120])
		}
	}
	return c
}

func jsonDocTokens(t *rapid.T, depth int) []string {
	k := pick(t, 6)
	if depth == 0 || k < 2 {
		return []string{jsonTokens[6+pick(t, 6)]}
	}
	var out []string
	n := pick(t, 4)
	if k < 4 {
		out = append(out, "[")
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(out, ",")
			}
			out = append(out, jsonDocTokens(t, depth-1)...)
		}
		return append(out, "]")
	}
	out = append(out, "{")
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, ",")
		}
		out = append(append(out, `"k"`, ":"), jsonDocTokens(t, depth-1)...)
	}
	return append(out, "}")
}

// checkWholeText checks that the tree of an accepted document has all of it but skipped whitespace
func checkWholeText(x *Ctx, g *xbnf.Grammar, doc string) {
	if strings.Contains(doc, "\\") { // escapes aren't in the tree
		return
	}
	for _, level := range []int{xbnf.LevelRaw, xbnf.LevelBasic} {
		ast, err := g.Eval(xbnf.NewCharstreamFromString(doc), level)
		if err != nil {
			x.Failf("level %d: valid document rejected: %v: %q", level, err, doc)
		}
		var leaves [][]rune
		for _, n := range ast.Nodes {
			realLeaves(n, &leaves)
		}
		if !covers([]rune(doc), leaves) {
			x.Failf("level %d: the leaves of %q are %q", level, doc, leaves)
		}
	}
	x.Class("whole document in the tree")
}

func runC19(c *Case, x *Ctx) {
	x.Class(c.Kind)
	switch c.Kind {
	case "json":
		g := sample(x, "json")
		ast, err := g.Eval(xbnf.NewCharstreamFromString(c.In[0]), xbnf.LevelDataOnly)
		if err != nil {
			x.Failf("valid JSON rejected: %v: %s", err, c.In[0])
		}
		if len(ast.Nodes) != 1 {
			x.Failf("%d documents in %s", len(ast.Nodes), c.In[0])
		}
		if got := jsonCanon(x, ast.Nodes[0]); got != c.In[1] {
			x.Failf("the tree of\n%s\nhas\n%s\nwant\n%s\n%s", c.In[0], got, c.In[1], ast.StringTree(nil))
		}
		checkWholeText(x, g, c.In[0])
		x.NonTrivial(strings.ContainsAny(c.In[1], ",:"))
	case "json tokens":
		g := sample(x, "json")
		_, err := g.Eval(xbnf.NewCharstreamFromString(c.In[0]), xbnf.LevelDataOnly)
		if want := jsonAccepts(c.In[0]); (err == nil) != want {
			x.Failf("accepted=%v, want %v: %s (%v)", err == nil, want, c.In[0], err)
		}
		x.ClassIf(err == nil, "tokens accepted")
		x.NonTrivial(len(c.In[0]) > 3)
	case "arithmetic":
		g := sample(x, "arithmetic")
		ast, err := g.Eval(xbnf.NewCharstreamFromString(c.In[0]), xbnf.LevelRaw)
		if err != nil {
			x.Failf("valid expressions rejected: %v: %q", err, c.In[0])
		}
		var exprs []*xbnf.Node
		for _, n := range ast.Nodes {
			nearest(n, map[string]bool{"expr": true}, &exprs)
		}
		var got []string
		for _, e := range exprs {
			got = append(got, arithCanon(x, e))
		}
		if s := strings.Join(got, ";"); s != c.In[1] {
			x.Failf("the tree of %q means %s, want %s", c.In[0], s, c.In[1])
		}
		checkWholeText(x, g, c.In[0])
		x.NonTrivial(strings.ContainsAny(c.In[1], "(;"))
	case "property":
		g := sample(x, "property")
		for _, level := range []int{xbnf.LevelNoVertual, xbnf.LevelDataOnly} {
			ast, err := g.Eval(xbnf.NewCharstreamFromString(c.In[0]), level)
			if err != nil {
				x.Failf("valid properties rejected: %v: %q", err, c.In[0])
			}
			var got strings.Builder
			for _, n := range ast.Nodes {
				if n.RuleName != "property" {
					x.Failf("odd node %s", dump(n))
				}
				var sub []*xbnf.Node
				nearest(n, map[string]bool{"key": true, "value": true, "emptykey": true}, &sub)
				for _, k := range sub {
					got.WriteString(k.RuleName + "=" + string(k.Text()) + ";")
				}
			}
			if got.String() != c.In[1] {
				x.Failf("the tree of %q has %q, want %q", c.In[0], got.String(), c.In[1])
			}
		}
		checkWholeText(x, g, c.In[0])
		x.NonTrivial(strings.Count(c.In[1], ";") > 2)
	case "model":
		g := sample(x, c.Rule)
		gr := samples[c.Rule]
		name := gr.Rules[c.N].Name
		for _, s := range c.In {
			m := NewModel(gr, s, modelBudget*4)
			want := m.EvalRule(name, 0, flagS)
			r := g.EvalRule(name, s)
			x.NonTrivial(want.OK)
			x.ClassIf(want.OK, c.Rule+" rule matched")
			compareEval(x, fmt.Sprintf("%s: rule %s on %q", c.Rule, name, s), r, want, 0, m.in, mShape|mName|mFlags)
		}
	}
}
