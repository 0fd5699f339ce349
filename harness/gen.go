package main

import (
	"fmt"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// Everything random is drawn through rapid, so that a case is a function of the seed and shrinks.

var (
	genByte = rapid.Byte()
	genBit  = rapid.Bool()
)

// pick draws 0..n-1 with equal chances; 0 is what it shrinks to. It is made of single bits because rapid's
// integer generators prefer small values.
func pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	for {
		v := 0
		for top := n - 1; top > 0; top >>= 1 {
			v <<= 1
			if genBit.Draw(t, "b") {
				v |= 1
			}
		}
		if v < n {
			return v
		}
	}
}

// chance is true about num out of 16 times, and shrinks to false
func chance(t *rapid.T, num int) bool {
	return 15-pick(t, 16) < num
}

func weighted(t *rapid.T, w []int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := pick(t, sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

func drawLayout(t *rapid.T, max int) []byte {
	d := rapid.SliceOfN(genByte, 0, max).Draw(t, "layout")
	if pick(t, 3) == 2 { // goes on at random after the end
		d = append(d, endless)
	}
	return d
}

// Prof says what grammars and texts to make
type Prof struct {
	Alpha    string         // chars of terminals and texts
	Space    string         // whitespace to put in between
	W        map[string]int // weights of kinds of expressions
	Rules    int            // at most so many rules
	Depth    int
	Ann      int // chance of an annotation, in 16
	WSText   int // chance that a terminal has whitespace in it
	EmptyStr int // chance of an empty string for a string terminal
	Roots    bool
	MaxKids  int
	Left     bool // all rules are roots candidates: don't force references
	WideRep  bool
	Top      string // kind of the first rule's expression
	Twins    int    // chance that a rule is made of another one's definition, in 16
	Many     int    // chance of ten or more rules, in 16
	NoNull   bool   // top rule is not nullable
	Big      string // what there is much of
}

var kindOrder = []string{"char", "chars", "string", "range", "ref", "opt", "rep", "group", "cat", "choice", "block", "eof"}

var baseW = map[string]int{"char": 6, "chars": 4, "string": 5, "range": 3, "ref": 5, "opt": 3, "rep": 4, "group": 2, "cat": 7, "choice": 5, "block": 2, "eof": 1}

func weights(over map[string]int) map[string]int {
	w := map[string]int{}
	for k, v := range baseW {
		w[k] = v
	}
	for k, v := range over {
		w[k] = v
	}
	return w
}

type gen struct {
	t     *rapid.T
	p     Prof
	names []string
	null  []bool // per rule, valid for rules already made
	made  []bool
	cur   int
	alpha []rune
	space []rune
	long  string // the last long word
}

var namePool = []string{"r", "s", "a1", "B_2", "Eof", "EOFx", "long_rule_name", "x", "u", "aa", "EO", "Z9",
	"r1", "a10", "a1_", "aaa", "EOF1", "zz", "b_", "S", "rule", "R2", "u0041"}

func drawGram(t *rapid.T, p Prof) *Gram {
	g := &gen{t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space)}
	if p.MaxKids == 0 {
		g.p.MaxKids = 4
	}
	n := 1 + pick(t, p.Rules)
	if p.Many > 0 && chance(t, p.Many) {
		n = 8 + pick(t, 7)
	}
	if p.Big == "rules" {
		n = 17 + pick(t, 50)
		g.p.Depth = 2
	}
	perm := pick(t, 4) // where in the pool the names start, so that sorting by name isn't the order made
	for i := 0; i < n; i++ {
		name := namePool[(i*5+perm)%len(namePool)]
		if i >= len(namePool) {
			name += fmt.Sprint("_", i)
		}
		if p.Big == "names" && pick(t, 2) == 0 {
			name += strings.Repeat(name, 1+pick(t, 200)/len(name)) + fmt.Sprint(i)
		}
		g.names = append(g.names, name)
	}
	g.null = make([]bool, n)
	g.made = make([]bool, n)
	exprs := make([]*Expr, n)
	for i := n - 1; i >= 0; i-- {
		g.cur = i
		want := ""
		if i == 0 {
			want = p.Top
		}
		e := g.expr(p.Depth, false, "top", want)
		if p.Twins > 0 && i < n-1 && chance(t, p.Twins) {
			e = g.twin(exprs[i+1+pick(t, n-1-i)])
		}
		if p.Big == "deep" && (i == 0 && want == "" || i > 0 && pick(t, 4) == 0) {
			e = g.deepen(e)
		}
		if i == 0 && p.NoNull {
			for tries := 0; tries < 3 && g.nullable(e); tries++ {
				e = g.expr(p.Depth, false, "top", want)
			}
			if g.nullable(e) {
				e = &Expr{K: "cat", Kids: []*Expr{{K: "char", Lo: g.alpha[0]}, wrap(e)}}
			}
		}
		exprs[i] = e
		g.null[i] = g.nullable(e)
		g.made[i] = true
	}
	gr := &Gram{}
	for i, e := range exprs {
		gr.Rules = append(gr.Rules, Rule{g.names[i], e})
	}
	// definitions may come in any order
	if n > 1 && chance(t, 4) {
		k := 1 + pick(t, n-1)
		gr.Rules = append(gr.Rules[k:], gr.Rules[:k]...)
	}
	return gr
}

// twin makes a definition that matches much of what e matches: at the same places with other annotations, more
// or less of it, or a reference to the same
func (g *gen) twin(e *Expr) *Expr {
	t := g.t
	c := e.clone()
	switch pick(t, 6) {
	case 0:
	case 1: // goes on
		c = &Expr{K: "cat", Kids: []*Expr{wrap(c), {K: "char", Lo: g.letter()}}}
	case 2: // may go on
		c = &Expr{K: "cat", Kids: []*Expr{wrap(c), {K: "opt", Kids: []*Expr{{K: "char", Lo: g.letter()}}}}}
	case 3:
		c = &Expr{K: "rep", Min: 1, Kids: []*Expr{c}}
	case 4:
		c = &Expr{K: "group", Kids: []*Expr{c}}
	case 5:
		switch c.K {
		case "char":
			c = &Expr{K: "string", T: string(c.Lo), Ann: c.Ann}
		case "string":
			if len([]rune(c.T)) > 1 {
				c.K = "chars"
			}
		case "chars":
			c.K = "string"
		case "cat":
			c.Kids = c.Kids[:1+pick(t, len(c.Kids))]
			if len(c.Kids) == 1 {
				c = c.Kids[0]
			}
		}
	}
	if c.K != "cat" && c.K != "choice" && g.p.Ann > 0 && pick(t, 2) == 0 {
		c.Ann = g.ann()
	}
	return c
}

// deepen puts e into many others
func (g *gen) deepen(e *Expr) *Expr {
	t := g.t
	reps := 0
	for n := 4 + pick(t, 40); n > 0; n-- {
		switch k := pick(t, 8); {
		case k == 0 && reps < 3:
			reps++
			e = &Expr{K: "rep", Kids: []*Expr{e}}
			g.repCounts(e)
		case k == 1:
			e = &Expr{K: "opt", Kids: []*Expr{e}}
		case k == 2:
			e = &Expr{K: "cat", Kids: []*Expr{{K: "char", Lo: g.letter()}, wrap(e)}}
		case k == 3:
			e = &Expr{K: "cat", Kids: []*Expr{wrap(e), {K: "opt", Kids: []*Expr{{K: "char", Lo: g.letter()}}}}}
		case k == 4 && e.K != "choice":
			e = &Expr{K: "choice", Groups: [][]*Expr{{wrap(e), {K: "char", Lo: g.letter()}}}}
		default:
			e = &Expr{K: "group", Kids: []*Expr{e}}
		}
		if e.K != "cat" && e.K != "choice" {
			e.Ann = g.ann()
		}
	}
	return e
}

// many is the number of things where there may be many of them
func (g *gen) many(what string, n, lo, hi int) int {
	if g.p.Big == what && pick(g.t, 3) > 0 {
		return lo + pick(g.t, hi-lo+1)
	}
	return n
}

// wrap makes an expression fit as a part of a concatenation or choice
func wrap(e *Expr) *Expr {
	if e.K == "cat" || e.K == "choice" {
		return &Expr{K: "group", Kids: []*Expr{e}}
	}
	return e
}

func (g *gen) nullable(e *Expr) bool {
	switch e.K {
	case "char", "range", "chars":
		return false
	case "string":
		return e.T == ""
	case "eof", "opt":
		return true
	case "ref":
		for i, n := range g.names {
			if n == e.T {
				return !g.made[i] || g.null[i] // not known yet: assume it is
			}
		}
		return true
	case "rep":
		return e.Min == 0 || g.nullable(e.Kids[0])
	case "group":
		return g.nullable(e.Kids[0])
	case "cat":
		for _, k := range e.Kids {
			if !g.nullable(k) {
				return false
			}
		}
		return true
	case "choice":
		for _, gr := range e.Groups {
			for _, k := range gr {
				if g.nullable(k) {
					return true
				}
			}
		}
		return false
	case "block":
		return g.nullable(e.Open) && (e.VC || g.nullable(e.Close))
	}
	panic(e.K)
}

func (g *gen) letter() rune { return g.alpha[pick(g.t, len(g.alpha))] }

// commonWords are terminals as grammars of languages have them
var commonWords = []string{"http://", "//", "/*", "*/", "--", "->", "=>", "::=", ":=", "<!--", "]]>", "&amp;", "%s", "%d%%", "\\n",
	"\\\\", "\\\"", "''", "\"\"\"", "${", "#!", "EOF", "r =", "a\n", "null", "<?", "\\u", "\\u0041", "...", "é"}

func (g *gen) word(max int) (word string) {
	if pick(g.t, 64) == 63 {
		return commonWords[pick(g.t, len(commonWords))]
	}
	n := 1 + pick(g.t, max)
	var b []rune
	if g.p.Big == "words" && pick(g.t, 2) == 0 {
		if w := []rune(g.long); len(w) > 0 && pick(g.t, 2) == 0 { // much like the last one
			b = append(b, w[:len(w)-pick(g.t, min(4, len(w)))]...)
		} else {
			n = 4 + pick(g.t, 80)
		}
		defer func() { g.long = word }()
	}
	spaces := func() { // several in a row
		for n := 2 + pick(g.t, 3); n > 0; n-- {
			b = append(b, g.space[pick(g.t, len(g.space))])
		}
	}
	where := 0
	if g.p.WSText > 0 && len(g.space) > 0 {
		where = pick(g.t, 24)
	}
	if where == 22 && len(b) == 0 {
		spaces()
	}
	for i := 0; i < n; i++ {
		if g.p.WSText > 0 && len(g.space) > 0 && chance(g.t, g.p.WSText) {
			b = append(b, g.space[pick(g.t, len(g.space))])
		} else {
			b = append(b, g.letter())
		}
	}
	if where == 23 {
		spaces()
	}
	return string(b)
}

func (g *gen) ann() string {
	if g.p.Ann == 0 || !chance(g.t, g.p.Ann) {
		return ""
	}
	return []string{"~", "#", "$", "~#", "#$", "$~", "$~#"}[pick(g.t, 7)]
}

// expr makes an expression. guarded: at least one char is surely used before it, so any rule can be
// referenced without being left recursive. ctx is where it is used: top (alone), cat, choice, block
func (g *gen) expr(depth int, guarded bool, ctx, want string) *Expr {
	t := g.t
	kind := want
	if kind == "" {
		w := make([]int, len(kindOrder))
		for i, k := range kindOrder {
			w[i] = g.p.W[k]
			switch k {
			case "opt", "rep", "group":
				if depth <= 0 {
					w[i] = 0
				}
			case "cat":
				if depth <= 0 || ctx == "cat" || ctx == "choice" || ctx == "block" {
					w[i] = 0
				}
			case "choice":
				if depth <= 0 || ctx == "choice" || ctx == "block" {
					w[i] = 0
				}
			case "block":
				if depth <= 0 {
					w[i] = 0
				}
			case "ref":
				if !guarded && g.cur == len(g.names)-1 {
					w[i] = 0
				}
			}
			switch k { // a whole rule is mostly more than one terminal
			case "char", "chars", "string", "range", "eof":
				if ctx == "top" && depth == g.p.Depth && depth > 1 {
					w[i] = (w[i] + 3) / 4
				}
			}
		}
		kind = kindOrder[weighted(t, w)]
	}
	e := &Expr{K: kind}
	if kind != "cat" && kind != "choice" {
		e.Ann = g.ann()
	}
	switch kind {
	case "char":
		e.Lo = g.letter()
		if g.p.WSText > 0 && len(g.space) > 0 && chance(t, g.p.WSText) {
			e.Lo = g.space[pick(t, len(g.space))]
		}
	case "chars":
		w := g.word(3)
		for len([]rune(w)) < 2 {
			w += string(g.letter())
		}
		e.T = w
	case "string":
		if g.p.EmptyStr > 0 && chance(t, g.p.EmptyStr) {
			e.T = ""
		} else {
			e.T = g.word(3)
		}
	case "range":
		a, b := g.letter(), g.letter()
		if g.p.WSText > 0 && len(g.space) > 0 && chance(t, g.p.WSText) {
			a = g.space[pick(t, len(g.space))]
		}
		if a > b && !chance(t, 1) {
			a, b = b, a
		}
		e.Lo, e.Hi = a, b
	case "eof":
	case "ref":
		lo := 0
		if !guarded {
			lo = g.cur + 1
		}
		if lo >= len(g.names) { // only when a reference was asked for
			return &Expr{K: "char", Lo: g.letter(), Ann: e.Ann}
		}
		e.T = g.names[lo+pick(t, len(g.names)-lo)]
	case "opt", "group":
		e.Kids = []*Expr{g.expr(depth-1, guarded, "top", "")}
	case "rep":
		e.Kids = []*Expr{g.expr(depth-1, guarded, "top", "")}
		g.repCounts(e)
	case "cat":
		n := g.many("kids", 2+pick(t, g.p.MaxKids-1), 5, 24)
		if n > 5 {
			depth = min(depth, 1+pick(t, 2))
		}
		for i := 0; i < n; i++ {
			k := g.expr(depth-1, guarded, "cat", "")
			e.Kids = append(e.Kids, k)
			guarded = guarded || !g.nullable(k)
		}
	case "choice":
		if pick(t, 24) == 23 {
			g.ladder(e)
			return e
		}
		groups := 1 + weighted(t, []int{6, 3, 1})
		if pick(t, 2) == 0 {
			groups = g.many("kids", groups, 3, 12)
		}
		var seen map[string]bool // where there are many, most are different from each other
		for i := 0; i < groups; i++ {
			n := 1 + pick(t, g.p.MaxKids)
			if groups < 4 {
				n = g.many("kids", n, 5, 20)
			}
			if n > 5 || groups > 3 {
				depth = 1
				seen = map[string]bool{}
			}
			if groups == 1 && n == 1 {
				n = 2
			}
			var alts []*Expr
			for j := 0; j < n; j++ {
				k := g.expr(depth-1, guarded, "choice", "")
				if seen != nil {
					if d := k.Print(nil); seen[d] && pick(t, 4) > 0 {
						k = &Expr{K: "string", T: g.word(6)}
					}
					seen[k.Print(nil)] = true
				}
				alts = append(alts, k)
			}
			e.Groups = append(e.Groups, alts)
		}
	case "block":
		part := func(guarded bool) *Expr {
			d := depth - 1
			if d > 1 {
				d = 1
			}
			w := g.p.W
			g.p.W = blockPartW(w)
			defer func() { g.p.W = w }()
			if (w["cat"] > 0 || w["choice"] > 0) && pick(t, 10) == 9 {
				return g.widePart(guarded, w["cat"] > 0, w["choice"] > 0)
			}
			return g.expr(d, guarded, "block", "")
		}
		e.Open = part(guarded)
		guarded = guarded || !g.nullable(e.Open)
		if chance(t, 7) {
			e.Esc = part(guarded)
		}
		for n := g.many("kids", weighted(t, []int{8, 5, 3, 2, 1}), 4, 16); n > 0; n-- {
			if k := len(e.Ex); k > 0 && pick(t, 4) == 0 { // begins like another one
				x := &Expr{K: "group", Kids: []*Expr{{K: "cat", Kids: []*Expr{wrap(e.Ex[k-1].clone()), {K: "char", Lo: g.letter()}}}}}
				e.Ex = append(e.Ex, x)
				if pick(t, 2) == 0 {
					e.Ex[k], e.Ex[k-1] = e.Ex[k-1], e.Ex[k]
				}
				continue
			}
			e.Ex = append(e.Ex, part(guarded))
		}
		e.VC = chance(t, 4)
		e.Close = part(guarded)
		e.bare(t)
	}
	return e
}

// widePart is a part of a block of many simple definitions
func (g *gen) widePart(guarded, cat, choice bool) *Expr {
	t := g.t
	w := g.p.W
	g.p.W = map[string]int{"char": 6, "chars": 4, "string": 4, "range": 2, "ref": w["ref"]}
	defer func() { g.p.W = w }()
	e := &Expr{K: "choice"}
	if cat && (!choice || pick(t, 2) == 0) {
		e.K = "cat"
		for n := 3 + pick(t, 5); n > 0; n-- {
			k := g.expr(0, guarded, "cat", "")
			e.Kids = append(e.Kids, k)
			guarded = guarded || !g.nullable(k)
		}
	} else {
		for n := 1 + pick(t, 4); n > 0; n-- {
			var alts []*Expr
			for m := 2 + pick(t, 4); m > 0; m-- {
				alts = append(alts, g.expr(0, guarded, "choice", ""))
			}
			e.Groups = append(e.Groups, alts)
		}
	}
	return &Expr{K: "group", Kids: []*Expr{e}}
}

// bare takes the group around parts of a block away, where that's possible
func (e *Expr) bare(t *rapid.T) {
	some := func(part **Expr, last bool) {
		if k := *part; k != nil && k.K == "group" && k.Ann == "" && (k.Kids[0].K == "cat" || k.Kids[0].K == "choice") &&
			k.Kids[0].tight(last, e.VC) && pick(t, 2) == 1 {
			*part = k.Kids[0]
		}
	}
	some(&e.Open, false)
	some(&e.Esc, false)
	for i := range e.Ex {
		some(&e.Ex[i], false)
	}
	some(&e.Close, true)
}

// ladder makes the alternatives of a choice of beginnings of a word and something longer
func (g *gen) ladder(e *Expr) {
	t := g.t
	var word []rune
	for n := 6 + pick(t, 30); len(word) < n; {
		word = append(word, g.letter())
	}
	term := func(w []rune) *Expr {
		k := &Expr{K: "chars", T: string(w)}
		if len(w) == 1 {
			k = &Expr{K: "char", Lo: w[0]}
		}
		switch pick(t, 5) {
		case 2:
			k = &Expr{K: "string", T: string(w)}
		case 3:
			if i := 1 + pick(t, len(w)); i < len(w) {
				k = &Expr{K: "group", Kids: []*Expr{{K: "cat", Kids: []*Expr{{K: "string", T: string(w[:i])}, {K: "string", T: string(w[i:])}}}}}
			}
		}
		k.Ann = g.ann()
		return k
	}
	var alts []*Expr
	top := 2 + pick(t, len(word)-2)
	for i := 1; i <= top; i++ {
		if pick(t, 4) > 0 {
			alts = append(alts, term(word[:i]))
		}
	}
	alts = append(alts, term(word))
	if pick(t, 2) == 0 {
		alts = append(alts, term(append(word[:len(word):len(word)], g.letter())))
	}
	if pick(t, 2) == 0 {
		for i := len(alts) - 1; i > 0; i-- {
			j := pick(t, i+1)
			alts[i], alts[j] = alts[j], alts[i]
		}
	}
	e.Groups = [][]*Expr{alts}
	if len(alts) > 2 && pick(t, 3) == 2 {
		k := 1 + pick(t, len(alts)-1)
		e.Groups = [][]*Expr{alts[:k:k], alts[k:]}
	}
	if len(e.Groups) == 1 && len(alts) == 1 {
		e.Groups[0] = append(alts, &Expr{K: "char", Lo: g.letter()})
	}
}

func (g *gen) repCounts(e *Expr) {
	t := g.t
	switch pick(t, 6) {
	case 0, 1:
	case 2:
		e.Min = 1
	case 3:
		e.Min = pick(t, 4)
		e.Max = e.Min + pick(t, 3)
	case 4:
		e.Max = 1 + pick(t, 4)
	case 5:
		e.Min = 1 + pick(t, 3)
		e.Max = e.Min
	}
	if e.Max == 0 && e.Min > 3 {
		e.Min = 3
	}
	if g.p.WideRep && chance(t, 2) {
		e.Min = pick(t, 12)
		e.Max = e.Min + pick(t, 12)
		if pick(t, 4) == 0 { // many digits
			big := []int{99, 100, 255, 256, 1000, 9999, 65535, 65536, 100000, 2147483647, 4294967295}
			e.Max = big[pick(t, len(big))]
			if pick(t, 6) == 0 {
				e.Min = big[pick(t, 5)]
				if pick(t, 2) == 0 || e.Max < e.Min {
					e.Max = 0
				}
			}
		}
	}
}

func blockPartW(w map[string]int) map[string]int {
	out := map[string]int{"char": 6, "chars": 4, "string": 4, "range": 1, "group": 3, "ref": 2, "opt": 1, "rep": 1, "eof": 1}
	if w["cat"] > 0 {
		out["cat"] = 3 // only in groups
	}
	if w["choice"] > 0 {
		out["choice"] = 5
	}
	if w["ref"] == 0 {
		out["ref"] = 0
	}
	return out
}

// ---------------------------------------------------------------- texts

type deriver struct {
	g     *Gram
	t     *rapid.T
	p     Prof
	alpha []rune
	space []rune
	out   []rune
	fuel  int
	max   int
}

func (d *deriver) many(what string, n, lo, hi int) int {
	if d.p.Big == what && pick(d.t, 3) == 2 {
		return lo + pick(d.t, hi-lo+1)
	}
	return n
}

func (d *deriver) ws() {
	if len(d.space) == 0 || len(d.out) > d.max {
		return
	}
	switch pick(d.t, 5) {
	case 3:
		d.out = append(d.out, d.space[pick(d.t, len(d.space))])
	case 4:
		n := 1 + pick(d.t, 3)
		if n = d.many("space", n, 4, 300); n > 3 && pick(d.t, 2) == 0 {
			c := d.space[pick(d.t, len(d.space))]
			for i := 0; i < n; i++ {
				d.out = append(d.out, c)
			}
			return
		}
		for i := 0; i < n; i++ {
			d.out = append(d.out, d.space[pick(d.t, len(d.space))])
		}
	}
}

// derive appends a text that e may match, approximately
func (d *deriver) derive(e *Expr, glue bool) {
	d.fuel--
	t := d.t
	if len(d.out) > d.max {
		return
	}
	switch e.K {
	case "char":
		if !glue {
			d.ws()
		}
		d.out = append(d.out, e.Lo)
	case "range":
		if !glue {
			d.ws()
		}
		if e.Hi <= e.Lo {
			d.out = append(d.out, e.Lo)
			return
		}
		switch pick(t, 3) {
		case 0:
			d.out = append(d.out, e.Lo)
		case 1:
			d.out = append(d.out, e.Hi)
		default:
			span := int(e.Hi - e.Lo)
			if span > 60 {
				span = 60
			}
			c := e.Lo + rune(pick(t, span+1))
			if c >= 0xD800 && c <= 0xDFFF {
				c = e.Lo
			}
			d.out = append(d.out, c)
		}
	case "chars", "string":
		if !glue {
			d.ws()
		}
		d.out = append(d.out, []rune(e.T)...)
	case "eof":
	case "ref":
		if k := d.g.find(e.T); k != nil && d.fuel > 0 {
			d.derive(k, glue)
		}
	case "opt":
		if d.fuel > 0 && chance(t, 9) {
			d.derive(e.Kids[0], glue)
		}
	case "group":
		d.derive(e.Kids[0], glue)
	case "rep":
		n := e.Min
		if d.fuel > 0 {
			more := d.many("iters", 3, 8, 400)
			if e.Max > 0 && e.Max-e.Min < more {
				more = e.Max - e.Min
			}
			if more > 3 && pick(t, 3) > 0 {
				n += more
				d.fuel += more // so that the last ones are like the first
			} else {
				n += pick(t, more+1)
			}
			if chance(t, 1) { // one too many or too few
				n += 1 - 2*pick(t, 2)
			}
		}
		for i := 0; i < n; i++ {
			d.derive(e.Kids[0], glue)
		}
	case "cat":
		for _, k := range e.Kids {
			d.derive(k, glue)
		}
	case "choice":
		gr := e.Groups[pick(t, len(e.Groups))]
		i := pick(t, len(gr))
		if d.fuel <= 0 { // prefer something that ends
			for j, k := range gr {
				if k.K == "char" || k.K == "chars" || k.K == "string" || k.K == "range" {
					i = j
					break
				}
			}
		}
		d.derive(gr[i], glue)
		if len(gr) > 5 && len(d.out) > 0 && pick(t, 6) == 5 { // nearly that one
			d.out = d.out[:len(d.out)-1]
		}
	case "block":
		d.derive(e.Open, glue)
		n := d.many("content", pick(t, 4), 4, 300)
		for i := 0; i < n && d.fuel > -40 && len(d.out) <= d.max; i++ {
			switch pick(t, 6) {
			case 0, 1, 2:
				d.out = append(d.out, d.alpha[pick(t, len(d.alpha))])
			case 3:
				if len(d.space) > 0 {
					d.out = append(d.out, d.space[pick(t, len(d.space))])
				}
			case 4:
				if e.Esc != nil {
					d.derive(e.Esc, true)
					switch pick(t, 3) {
					case 0:
						d.derive(e.Close, true)
					case 1:
						if len(e.Ex) > 0 {
							d.derive(e.Ex[pick(t, len(e.Ex))], true)
						}
					}
				}
			case 5:
				if len(e.Ex) > 0 && chance(t, 4) {
					d.derive(e.Ex[pick(t, len(e.Ex))], true)
				}
			}
		}
		d.derive(e.Close, true)
	}
}

func drawText(t *rapid.T, g *Gram, start *Expr, p Prof) string {
	d := &deriver{g: g, t: t, p: p, alpha: []rune(p.Alpha), space: []rune(p.Space), fuel: 24, max: 400}
	if p.Big != "" {
		d.max = 3000
	}
	if pick(t, 8) == 7 { // nothing to do with the grammar
		n := d.many("content", pick(t, 12), 12, 500)
		for i := 0; i < n; i++ {
			d.out = append(d.out, d.any())
		}
		return string(d.out)
	}
	d.derive(start, pick(t, 6) == 5)
	switch pick(t, 4) {
	case 2: // something follows
		n := d.many("content", 1+pick(t, 3), 4, 300)
		for i := 0; i < n; i++ {
			d.out = append(d.out, d.any())
		}
	case 3:
		d.derive(start, false)
	}
	if p.Big == "repeat" {
		for n := 4 + pick(t, 200); n > 0 && len(d.out) <= d.max; n-- {
			d.fuel = 24
			d.derive(start, false)
			if pick(t, 40) == 39 {
				d.out = append(d.out, d.any())
			}
		}
	}
	for n := weighted(t, []int{8, 4, 2, 1, 1}); n > 0; n-- {
		d.mutate()
	}
	return string(d.out)
}

func (d *deriver) any() rune {
	if len(d.space) > 0 && pick(d.t, 4) == 3 {
		return d.space[pick(d.t, len(d.space))]
	}
	return d.alpha[pick(d.t, len(d.alpha))]
}

func (d *deriver) mutate() {
	t := d.t
	n := len(d.out)
	switch pick(t, 6) {
	case 0: // insert
		i := pick(t, n+1)
		c := d.any()
		if pick(t, 4) == 3 {
			c = hardlyThere[pick(t, len(hardlyThere))]
		}
		d.out = append(d.out[:i], append([]rune{c}, d.out[i:]...)...)
	case 1: // delete
		if n > 0 {
			i := pick(t, n)
			d.out = append(d.out[:i], d.out[i+1:]...)
		}
	case 2: // replace
		if n > 0 {
			i := pick(t, n)
			c := d.any()
			if pick(t, 3) == 2 {
				c = lookalike(t, d.out[i])
			}
			d.out[i] = c
		}
	case 3: // truncate
		if n > 0 {
			d.out = d.out[:pick(t, n)]
		}
	case 4: // duplicate a piece
		if n > 0 {
			i := pick(t, n)
			j := i + pick(t, n-i) + 1
			piece := append([]rune{}, d.out[i:j]...)
			d.out = append(d.out[:j], append(piece, d.out[j:]...)...)
		}
	case 5: // swap neighbours
		if n > 1 {
			i := pick(t, n-1)
			d.out[i], d.out[i+1] = d.out[i+1], d.out[i]
		}
	}
	if len(d.out) > d.max+200 {
		d.out = d.out[:d.max+200]
	}
}

// hardlyThere are chars that something might pass over
var hardlyThere = []rune("\u00ad\u0301\u200b\u200d\u2060\ufe0f\ufeff\u061c\x00\b\r\x04\x1a\x7f\u180e\U000E0001")

// lookalike is a char that something might take for another one: its other case, the same digit or letter of
// another script, the same low bits
func lookalike(t *rapid.T, c rune) rune {
	r := c
	switch pick(t, 8) {
	case 0, 1:
		r = unicode.SimpleFold(c)
	case 2:
		r = c + 0x100
	case 3:
		r = c ^ 0x10000
	case 4:
		r = c + 0xFEE0 // full width
	case 5:
		r = c ^ 0x80
	case 6:
		r = c + 1 - 2*rune(pick(t, 2))
	case 7:
		r = []rune{0x660, 0x966, 0xFF10, 0x1D7CE}[pick(t, 4)] + (c-'0'+1000)%10 // a digit
	}
	if r < 0 || r > 0x10FFFF || r >= 0xD800 && r <= 0xDFFF {
		return c
	}
	return r
}

// nearNames are undefined names like that of a rule
func nearNames(g *Gram, name string) (out []string) {
	title := strings.ToUpper(name[:1]) + strings.ToLower(name[1:])
	for _, n := range []string{strings.ToUpper(name), strings.ToLower(name), title, name + "_", name + "0", name[:len(name)-1], name + name, "x" + name, "missing"} {
		if n != "" && n != "EOF" && g.find(n) == nil && (n[0] >= 'a' && n[0] <= 'z' || n[0] >= 'A' && n[0] <= 'Z') {
			out = append(out, n)
		}
	}
	return out
}

// undefine makes some references those to undefined rules
func undefine(t *rapid.T, g *Gram) {
	g.walk(func(e *Expr) {
		if e.K == "ref" && pick(t, 3) == 0 {
			near := nearNames(g, e.T)
			e.T = near[pick(t, len(near))]
		}
	})
}

func drawTexts(t *rapid.T, g *Gram, start *Expr, p Prof, max int) []string {
	n := 1 + pick(t, max)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, drawText(t, g, start, p))
	}
	return out
}

// ---------------------------------------------------------------- profiles

const (
	alphaTiny  = "ab"
	alphaSmall = "abc"
	alphaBase  = "abcxy01+"
	alphaSym   = "ab\"'\\<>(){}[]|=#~$^!-/u0,.:;*+@%&UnAxF"
	alphaUni   = "ab\ufeff\x00\u00e9\u4e2d\U0001F600\u200b'\"\\"
	alphaMarks = "abe\u0301\u0308\u20dd\u00ad\u200d\ufe0f\u093fe\U000E0100\n"
	alphaLines = "ab\r\n\r\n\u0085\u2028\v\fc"
	spaceBase  = " \n\t"
	spaceUni   = " \n\t\r\v\f\u0085\u00a0\u1680\u2000\u2003\u2007\u200a\u2028\u2029\u202f\u205f\u3000"
)

func profBase() Prof {
	return Prof{Alpha: alphaBase, Space: spaceBase, W: baseW, Rules: 4, Depth: 3, EmptyStr: 1, WSText: 1, Twins: 1}
}

// drawProf varies a profile so that a check sees very different kinds of grammars
func drawProf(t *rapid.T, p Prof) Prof {
	switch pick(t, 8) {
	case 0, 1:
	case 2: // much read-ahead: few different chars, so that alternatives share prefixes
		p.Alpha = alphaTiny
		p.Space = " "
	case 3:
		p.Alpha = alphaSmall
		p.Space = spaceUni
		p.WSText = 4
	case 4:
		p.Alpha = []string{alphaUni, alphaUni, alphaMarks, alphaLines}[pick(t, 4)]
		p.Space = " \n"
	case 5: // bigger grammars
		p.Rules += 4
		p.Depth++
		p.MaxKids = 5
		p.Many += 2
	case 6:
		p.Alpha = alphaSym
		p.Space = " \n"
	case 7:
		p.Alpha = alphaCtl
		p.Space = " \n"
	}
	return big(t, p, 12)
}

// big makes one of n profiles one for much of something
func big(t *rapid.T, p Prof, n int) Prof {
	if pick(t, n) == n-1 {
		p.Big = bigKinds[pick(t, len(bigKinds))]
	}
	return p
}

var bigKinds = []string{"kids", "words", "space", "content", "iters", "names", "rules", "deep", "repeat"}

func clip(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

func oneLine(s string) string { return strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", " ⏎ ") }

// drawRecursion makes a grammar of one recursion through some constructs and a text that goes n levels deep
func drawRecursion(t *rapid.T, n int) (g *Gram, chars []rune) {
	g = &Gram{Rules: []Rule{{Name: "e"}}}
	var pre, post string
	tok := func(alpha string) (*Expr, string) {
		s := string(alpha[pick(t, len(alpha))])
		if pick(t, 4) == 0 {
			s += string(alpha[pick(t, len(alpha))])
		}
		if pick(t, 3) > 0 {
			sp := []string{"", "", " "}[pick(t, 3)]
			return &Expr{K: "string", T: s}, sp + s
		}
		k := "char"
		if len(s) > 1 {
			k = "chars"
		}
		return &Expr{K: k, T: s}, s
	}
	ann := func(e *Expr) *Expr {
		if pick(t, 6) == 0 {
			e.Ann = []string{"~", "#", "$"}[pick(t, 3)]
		}
		return e
	}
	atom := func(e *Expr) *Expr {
		if e.K == "cat" || e.K == "choice" {
			return &Expr{K: "group", Kids: []*Expr{e}}
		}
		return e
	}
	in := &Expr{K: "ref", T: "e"}
	for k := 1 + pick(t, 4); k > 0; k-- {
		kids := []*Expr{in}
		switch pick(t, 9) {
		case 0, 1:
			in = ann(&Expr{K: "group", Kids: kids})
		case 2:
			in = &Expr{K: "opt", Kids: kids}
		case 3:
			in = &Expr{K: "rep", Kids: kids, Min: pick(t, 2), Max: pick(t, 3)}
			if in.Max > 0 && in.Max < in.Min {
				in.Max = in.Min
			}
		case 4, 5:
			a, as := tok("ab")
			z, zs := tok("yz")
			in = &Expr{K: "cat", Kids: []*Expr{a, atom(in), z}}
			pre, post = as+pre, post+zs
		case 6:
			o, _ := tok("cx")
			if in.K != "choice" {
				in = &Expr{K: "choice", Groups: [][]*Expr{{atom(in), o}}}
				if pick(t, 2) == 0 {
					in.Groups = [][]*Expr{{o}, {in.Groups[0][0]}}
				}
			}
		case 7:
			name := fmt.Sprintf("r%d", len(g.Rules))
			g.Rules = append(g.Rules, Rule{name, in})
			in = ann(&Expr{K: "ref", T: name})
		case 8:
			o, _ := tok("ow")
			if pick(t, 2) == 0 {
				in = &Expr{K: "cat", Kids: []*Expr{{K: "opt", Kids: []*Expr{o}}, atom(in)}}
			} else {
				in = &Expr{K: "cat", Kids: []*Expr{atom(in), {K: "opt", Kids: []*Expr{o}}}}
			}
		}
	}
	a, as := tok("(ab")
	z, zs := tok(")yz")
	in = &Expr{K: "cat", Kids: []*Expr{a, atom(in), z}}
	pre, post = as+pre, post+zs
	if pick(t, 3) == 0 {
		in.Kids = in.Kids[:2]
		post = post[:len(post)-len(zs)]
	}
	x, xs := tok("x1")
	in = &Expr{K: "choice", Groups: [][]*Expr{{atom(in), x}}}
	if pick(t, 3) == 0 {
		in.Groups = [][]*Expr{{in.Groups[0][0]}, {x}}
	}
	g.Rules[0].E = in
	return g, []rune(strings.Repeat(pre, n) + xs + strings.Repeat(post, n))
}
