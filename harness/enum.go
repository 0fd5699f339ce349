package main

import "strings"

// Besides random cases, most checks run all cases of a small world: all definitions up to a size over a few
// terminals, each with all short texts; all small trees; all short definitions, histories and documents. What goes
// wrong in some small case at all is surely met. The size of a definition counts its terminals, references and
// brackets.

// world says what definitions are made of
type world struct {
	leaves []*Expr
	ops    []func(*Expr) *Expr
	units  map[int][]*Expr
	all    map[int][]*Expr
}

func newWorld(ops []func(*Expr) *Expr, leaves ...*Expr) *world {
	return &world{leaves: leaves, ops: ops, units: map[int][]*Expr{}, all: map[int][]*Expr{}}
}

func leafChars(s string) *Expr {
	if r := []rune(s); len(r) == 1 {
		return &Expr{K: "char", Lo: r[0]}
	}
	return &Expr{K: "chars", T: s}
}
func leafString(s string) *Expr { return &Expr{K: "string", T: s} }
func leafRange(lo, hi rune) *Expr {
	return &Expr{K: "range", Lo: lo, Hi: hi}
}
func leafRef(ann, s string) *Expr { return &Expr{K: "ref", Ann: ann, T: s} }
func leafEOF() *Expr              { return &Expr{K: "eof"} }

func inOpt(e *Expr) *Expr   { return &Expr{K: "opt", Kids: []*Expr{e}} }
func inGroup(e *Expr) *Expr { return &Expr{K: "group", Kids: []*Expr{e}} }
func inRep(min, max int) func(*Expr) *Expr {
	return func(e *Expr) *Expr { return &Expr{K: "rep", Min: min, Max: max, Kids: []*Expr{e}} }
}
func annotated(ann string, f func(*Expr) *Expr) func(*Expr) *Expr {
	return func(e *Expr) *Expr {
		k := f(e)
		k.Ann = ann
		return k
	}
}

// unit is the definitions of a size that are one part
func (w *world) unit(n int) []*Expr {
	if n == 1 {
		return w.leaves
	}
	if u, ok := w.units[n]; ok {
		return u
	}
	var out []*Expr
	for _, e := range w.any(n - 1) {
		for _, f := range w.ops {
			out = append(out, f(e))
		}
	}
	w.units[n] = out
	return out
}

// seqs calls f with each sequence of two or more units of a size in all
func (w *world) seqs(n int, f func([]*Expr)) {
	var rec func(left int, have []*Expr)
	rec = func(left int, have []*Expr) {
		if left == 0 {
			if len(have) > 1 {
				f(have)
			}
			return
		}
		for k := 1; k <= left; k++ {
			for _, u := range w.unit(k) {
				rec(left-k, append(have[:len(have):len(have)], u))
			}
		}
	}
	rec(n, nil)
}

// choices calls f with each choice of a size
func (w *world) choices(n int, f func(*Expr)) {
	w.seqs(n, func(ks []*Expr) {
		for seps := 0; seps < 1<<(len(ks)-1); seps++ {
			e := &Expr{K: "choice", Groups: [][]*Expr{{ks[0]}}}
			for i, k := range ks[1:] {
				if last := len(e.Groups) - 1; seps>>i&1 != 0 {
					e.Groups = append(e.Groups, []*Expr{k})
				} else {
					e.Groups[last] = append(e.Groups[last], k)
				}
			}
			f(e)
		}
	})
}

// each calls f with each definition of a size
func (w *world) each(n int, f func(*Expr)) {
	for _, e := range w.unit(n) {
		f(e)
	}
	w.choices(n, f)
	w.seqs(n, func(ks []*Expr) { f(&Expr{K: "cat", Kids: ks}) })
}

func (w *world) any(n int) []*Expr {
	if a, ok := w.all[n]; ok {
		return a
	}
	var out []*Expr
	w.each(n, func(e *Expr) { out = append(out, e) })
	w.all[n] = out
	return out
}

func (w *world) upTo(n int, f func(*Expr)) {
	for k := 1; k <= n; k++ {
		w.each(k, f)
	}
}

// words is all texts of up to n of the chars
func words(chars string, n int) []string {
	out, last := []string{""}, []string{""}
	for ; n > 0; n-- {
		var next []string
		for _, s := range last {
			for _, r := range chars {
				next = append(next, s+string(r))
			}
		}
		out, last = append(out, next...), next
	}
	return out
}

// tokenSeqs calls f with each sequence of 1 to n tokens
func tokenSeqs(tokens []string, n int, f func([]string)) {
	var rec func(left int, have []string)
	rec = func(left int, have []string) {
		if left == 0 {
			f(have)
			return
		}
		for _, k := range tokens {
			rec(left-1, append(have[:len(have):len(have)], k))
		}
	}
	for k := 1; k <= n; k++ {
		rec(k, nil)
	}
}

func oneRule(e *Expr) *Gram { return &Gram{[]Rule{{"r", e}}} }

// scatter gives choices that look random, but are the same each time
func scatter(i int) []byte {
	return []byte{byte(i), byte(i >> 8), byte(i >> 16), 7, endless}
}

func bySize(thorough bool, quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

var (
	fullOps  = []func(*Expr) *Expr{inOpt, inGroup, inRep(0, 0), inRep(1, 2), inRep(2, 0)}
	smallOps = []func(*Expr) *Expr{inOpt, inGroup, inRep(0, 0)}
)

func fullWorld() *world {
	return newWorld(fullOps, leafChars("a"), leafString("b"), leafChars("ab"), leafString(""), leafRange('a', 'b'), leafChars(" "), leafEOF())
}

func smallWorld() *world {
	return newWorld(smallOps, leafChars("a"), leafString("b"), leafChars("ab"))
}

// evalCases is all small definitions, each with all short texts
func evalCases(chars string, set func(c *Case, i int)) func(thorough bool, f func(*Case)) {
	return func(thorough bool, f func(*Case)) {
		i := 0
		do := func(in []string) func(e *Expr) {
			return func(e *Expr) {
				i++
				c := &Case{G: oneRule(e), Rule: "r", In: in}
				if set != nil {
					set(c, i)
				}
				f(c)
			}
		}
		short, long := words(chars, 3), words(chars, 4)
		fullWorld().upTo(3, do(long))
		smallWorld().upTo(4, do(short))
		if thorough {
			fullWorld().each(4, do(short))
			smallWorld().each(5, do(short))
		}
	}
}

func enumC01(thorough bool, f func(*Case)) {
	w := newWorld(smallOps, leafChars("a"), leafString("b"), leafChars("ab"), leafString(""), leafRange('a', 'b'), leafString(" a"))
	in, i := words("ab ", 3), 0
	do := func(e *Expr) {
		i++
		f(&Case{G: oneRule(e), Rule: "r", In: in, L2: scatter(i)})
	}
	for k := 2; k <= bySize(thorough, 3, 4); k++ {
		w.choices(k, do)
	}
	small := smallWorld()
	small.choices(bySize(thorough, 4, 5), do)
	// in what comes before and after it
	w.choices(bySize(thorough, 2, 3), func(e *Expr) {
		do(&Expr{K: "cat", Kids: []*Expr{inGroup(e), leafChars("b")}})
		do(&Expr{K: "cat", Kids: []*Expr{leafChars("a"), inGroup(e)}})
		do(inRep(0, 0)(e))
	})
}

func enumC03(thorough bool, f func(*Case)) {
	w := newWorld(nil, leafChars("a"), leafString("a"), leafChars(" "), leafString(" "), leafChars("\n"), leafChars(" a"), leafString(" a"), leafChars("a "),
		leafString("\n "), leafRange(' ', 'a'), leafRange('a', 'b'), leafString(""), leafChars("  "), leafString("aa"))
	in := words("a \n", bySize(thorough, 4, 5))
	for n := 0; n < 2; n++ {
		w.upTo(bySize(thorough, 2, 3), func(e *Expr) { f(&Case{G: oneRule(e), Rule: "r", In: in, N: n}) })
	}
}

func enumC04(thorough bool, f func(*Case)) {
	parts := []*Expr{leafChars("a"), leafString("b"), leafChars("ab"), leafString("\\")}
	maybe := append([]*Expr{nil}, parts...)
	in := words("ab\\ ", bySize(thorough, 4, 5))
	for _, open := range parts {
		for _, cl := range parts {
			for _, esc := range maybe {
				for _, ex := range maybe {
					for _, ex2 := range maybe {
						if ex == nil && ex2 != nil {
							continue
						}
						for vc := 0; vc < 2; vc++ {
							if ex2 != nil && vc == 1 && !thorough {
								continue
							}
							b := &Expr{K: "block", Open: open, Esc: esc, Close: cl, VC: vc == 1}
							for _, e := range []*Expr{ex, ex2} {
								if e != nil {
									b.Ex = append(b.Ex, e)
								}
							}
							if esc != nil && ex == nil && cl == nil {
								continue
							}
							f(&Case{G: oneRule(b), Rule: "r", In: in})
							if vc == 1 {
								f(&Case{G: oneRule(&Expr{K: "cat", Kids: []*Expr{b, leafString("b")}}), Rule: "r", In: in})
							}
						}
					}
				}
			}
		}
	}
}

func enumC07(thorough bool, f func(*Case)) {
	w := newWorld(smallOps, leafChars("a"), leafString("b"), leafChars("ab"), leafString(""))
	var es []*Expr
	w.upTo(2, func(e *Expr) { es = append(es, e) })
	in := words("ab ", bySize(thorough, 3, 4))
	for i, e := range es {
		for j, k := range es[:i+1] {
			f(&Case{G: &Gram{[]Rule{{"r", e}, {"s", k}}}, N: 2, In: in})
			if thorough {
				for _, t := range w.leaves {
					f(&Case{G: &Gram{[]Rule{{"r", e}, {"s", k}, {"t", t}}}, N: 3, In: in[:40]})
				}
			} else if i%7 == 0 {
				f(&Case{G: &Gram{[]Rule{{"r", e}, {"s", k}, {"t", w.leaves[j%4]}}}, N: 3, In: in})
			}
		}
	}
}

func enumC08(thorough bool, f func(*Case)) {
	ops := []func(*Expr) *Expr{inOpt, inGroup, inRep(0, 0), inRep(2, 0), inRep(1, 2)}
	w := newWorld(ops, leafString(""), leafChars("a"), leafEOF())
	in := []string{"", "a", "aa", " a", "ab"}
	w.upTo(bySize(thorough, 3, 4), func(e *Expr) { f(&Case{G: oneRule(e), Rule: "r", In: in}) })
	blocks := newWorld(ops[:3], leafString(""), leafChars("a"))
	var parts []*Expr
	blocks.upTo(2, func(e *Expr) { parts = append(parts, e) })
	for _, o := range parts {
		for _, e := range append([]*Expr{nil}, parts...) {
			for _, c := range parts {
				f(&Case{G: oneRule(&Expr{K: "block", Open: wrap(o), Esc: e, Close: wrap(c)}), Rule: "r", In: in})
			}
		}
	}
}

func enumC09(thorough bool, f func(*Case)) {
	tokens := []string{"'a'", "a", "\"b\"", "|", ">", "<", "(", ")", "[", "]", "{", "}", "~", "^", "'c'-", "!", "1,2", "EOF", "//", "\\u0041", "\\"}
	for _, sep := range []string{" ", ""} {
		tokenSeqs(tokens, bySize(thorough, 4, 5), func(ts []string) {
			if sep == "" && len(ts) == 1 {
				return
			}
			f(&Case{Kind: "tokens", Raw: []byte("r = " + strings.Join(ts, sep) + "\na = 'b'\n"), N: len(ts), In: []string{"ab a"}})
		})
	}
}

// notations are definitions of all kinds, with annotations
func notations(thorough bool, f func(c *Case)) {
	ops := []func(*Expr) *Expr{inOpt, inGroup, annotated("~", inGroup), inRep(0, 0), annotated("#", inRep(1, 0)), inRep(2, 2), inRep(0, 3), annotated("$", inRep(2, 3))}
	tilde := leafChars("a")
	tilde.Ann = "~"
	w := newWorld(ops, leafChars("a"), tilde, leafString("b"), leafString(" a"), leafChars("'\"\\"), leafRange('a', 'b'), leafRef("", "s"), leafRef("#~", "s"), leafEOF(),
		&Expr{K: "block", Open: leafChars("<"), Close: leafChars(">"), VC: true},
		&Expr{K: "block", Open: leafString("a"), Esc: leafChars("\\"), Close: leafChars("b"), Ex: []*Expr{leafChars(" ")}, Ann: "$"})
	in := []string{"a", "b a", "ab'\"\\", "<a>", "aab"}
	s := Rule{"s", leafRange('a', 'c')}
	i := 0
	do := func(e *Expr) {
		i++
		f(&Case{G: &Gram{[]Rule{{"r", e}, s}}, Rule: "r", In: in, L: scatter(i), L2: scatter(-i), N: i % 32})
	}
	w.upTo(2, do)
	tightBlocks(thorough, do)
	w.each(3, func(e *Expr) {
		if i++; thorough || i%8 == 0 {
			do(e)
		}
	})
	if thorough {
		w.choices(4, func(e *Expr) {
			if i++; i%4 == 0 {
				do(e)
			}
		})
	}
}

// tightBlocks are blocks with parts of two units that no bracket is around
func tightBlocks(thorough bool, do func(*Expr)) {
	a, b, lt := leafChars("a"), leafString("b"), leafString("<")
	block := &Expr{K: "block", Open: leafChars("<"), Close: leafChars(">"), VC: true}
	other := &Expr{K: "block", Open: a, Esc: leafChars("\\"), Ex: []*Expr{b}, Close: leafString("a")}
	tilde := leafChars("a")
	tilde.Ann = "~"
	us := []*Expr{a, tilde, b, leafChars("ab"), leafRange('a', 'b'), leafRange('\u00e0', '\u00e9'), leafRef("", "s"), leafRef("#~", "s"), leafEOF(),
		inOpt(a), inGroup(b), annotated("~$", inGroup)(a), inRep(0, 0)(a), inRep(1, 0)(b), inRep(2, 0)(a), inRep(0, 2)(a), inRep(2, 3)(b), annotated("#", inRep(0, 0))(a),
		block, other, inRep(0, 0)(block), inOpt(inRep(0, 0)(a))}
	var parts []*Expr
	for _, u := range us {
		for _, v := range us {
			parts = append(parts, &Expr{K: "cat", Kids: []*Expr{u, v}})
			if thorough {
				for _, t := range us {
					parts = append(parts, &Expr{K: "cat", Kids: []*Expr{u, v, t}})
				}
			}
		}
	}
	for _, p := range parts {
		if !p.tight(false, false) {
			continue
		}
		do(&Expr{K: "block", Open: p, Close: b})
		do(&Expr{K: "block", Open: lt, Esc: p, Close: b, Ex: []*Expr{a}})
		do(&Expr{K: "block", Open: lt, Close: b, Ex: []*Expr{p}, VC: true})
		do(&Expr{K: "block", Open: lt, Close: p})
	}
	for _, u := range us {
		for _, v := range us {
			for _, gs := range [][][]*Expr{{{u, v}}, {{u, v}, {a}}, {{a, u}, {v}}} {
				c := &Expr{K: "choice", Groups: gs}
				if c.tight(true, true) {
					do(&Expr{K: "block", Open: lt, Close: c, VC: true})
				}
			}
		}
	}
}

func enumC11(thorough bool, f func(*Case)) {
	g := &Gram{[]Rule{
		{"a", &Expr{K: "cat", Kids: []*Expr{leafRef("", "b"), leafChars("x")}}},
		{"b", &Expr{K: "choice", Groups: [][]*Expr{{leafRef("", "c"), leafChars("y")}}}},
		{"c", leafChars("z")}}}
	ops := []Op{{K: "add", N: 0}, {K: "parse", N: 1}, {K: "add", N: 2}, {K: "dup", N: 0, M: 1}, {K: "dup", N: 2, M: 0}, {K: "bad", N: 0, S: "( b |"},
		{K: "bad", N: 1, S: "a c ]"}, {K: "badname", S: "1a", M: 0}, {K: "validate"}, {K: "eval"}, {K: "load", N: 1}, {K: "load", N: 2}}
	max := bySize(thorough, 4, 5)
	var rec func(have []Op)
	rec = func(have []Op) {
		if len(have) > 0 {
			f(&Case{G: g, Ops: append(have[:len(have):len(have)], Op{K: "validate"}, Op{K: "eval"}), In: []string{"zx"}, N: len(have)})
		}
		if len(have) == max {
			return
		}
		for _, o := range ops {
			if o.K == "load" && len(have) > 0 {
				continue
			}
			dup := false
			for _, h := range have {
				dup = dup || h.K == o.K && h.N == o.N && (o.K == "badname" || o.K == "dup") // the same again
			}
			if !dup {
				rec(append(have[:len(have):len(have)], o))
			}
		}
	}
	rec(nil)
}

func enumC12(thorough bool, f func(*Case)) {
	ops := []func(*Expr) *Expr{annotated("~", inOpt), annotated("$", inGroup), annotated("#", inRep(0, 0)), inGroup}
	w := newWorld(ops, leafChars("a"), leafString("b"), leafRef("", "s"), leafRef("~", "s"), leafRef("#$", "s"))
	ofS := []*Expr{leafChars("a"), {K: "string", T: "b", Ann: "~"}, {K: "group", Ann: "#~", Kids: []*Expr{leafChars("a")}},
		{K: "choice", Groups: [][]*Expr{{leafString("b"), {K: "char", Lo: 'a', Ann: "~"}}}}, leafRef("~", "t"), leafRef("", "t")}
	in := words("ab ", 2)
	in = append(in, "aab", "bab", "abab", "a ba", "bb a")
	do := func(e *Expr) {
		for _, s := range ofS {
			f(&Case{G: &Gram{[]Rule{{"r", e}, {"s", s}, {"t", &Expr{K: "char", Lo: 'a', Ann: "~$"}}}}, Rule: "r", In: in})
		}
	}
	w.upTo(bySize(thorough, 3, 4), do)
}

// forests calls f with each list of trees with n nodes
func forests(n int, leaves, inner []MNode, f func([]*MNode)) {
	var trees func(n int) []*MNode
	var lists func(n int) [][]*MNode
	memoT, memoL := map[int][]*MNode{}, map[int][][]*MNode{0: {nil}}
	trees = func(n int) []*MNode {
		if t, ok := memoT[n]; ok {
			return t
		}
		var out []*MNode
		if n == 1 {
			for i := range leaves {
				out = append(out, &leaves[i])
			}
		} else {
			for _, kids := range lists(n - 1) {
				for i := range inner {
					k := inner[i]
					k.Kids = kids
					out = append(out, &k)
				}
			}
		}
		memoT[n] = out
		return out
	}
	each := func(n int, f func([]*MNode)) {
		for k := 1; k <= n; k++ {
			for _, t := range trees(k) {
				for _, l := range lists(n - k) {
					f(append([]*MNode{t}, l...))
				}
			}
		}
	}
	lists = func(n int) [][]*MNode {
		if l, ok := memoL[n]; ok {
			return l
		}
		var out [][]*MNode
		each(n, func(l []*MNode) { out = append(out, l) })
		memoL[n] = out
		return out
	}
	each(n, func(l []*MNode) {
		at := 0
		var own []*MNode // nodes are changed by what is tested
		for _, t := range l {
			own = append(own, t.clone())
		}
		for _, t := range own {
			t.walk(func(k *MNode) {
				if k.Off = -1; len(k.Kids) == 0 && len(k.Chars) > 0 {
					k.Off = at
					at += len(k.Chars)
				}
			})
		}
		f(own)
	})
}

// treeVariants gives each node in all variants of the flags: s sticky, n named, v virtual, d non-data, t token
func treeVariants(protos []MNode, flags string) []MNode {
	out := protos
	for _, fl := range flags {
		more := append([]MNode{}, out...)
		for _, p := range out {
			switch fl {
			case 's':
				p.Sticky = true
			case 'n':
				p.Name = "r"
			case 'v':
				p.Virt = true
			case 'd':
				p.Non = true
			case 't':
				p.Tok = true
			}
			more = append(more, p)
		}
		out = more
	}
	return out
}

func treeCases(flags, innerFlags string, quick, deep int) func(bool, func(*Case)) {
	return func(thorough bool, f func(*Case)) {
		leaves := treeVariants([]MNode{{Type: "chars", Chars: []rune("a")}, {Type: "option"}}, flags)
		inner := append(treeVariants([]MNode{{Type: "concatenate"}}, innerFlags), treeVariants([]MNode{{Type: "block"}}, innerFlags[:1])...)
		for n := 1; n <= bySize(thorough, quick, deep); n++ {
			forests(n, leaves, inner, func(ts []*MNode) { f(&Case{Kind: "tree", Trees: ts}) })
		}
	}
}

func enumC16(thorough bool, f func(*Case)) {
	ops := []Op{{K: "next"}, {K: "peek"}, {K: "match", N: 2, M: 9}, {K: "match", N: 2, M: 1}, {K: "match", N: 1}, {K: "skip"}, {K: "position"},
		{K: "lookup", N: 1}, {K: "back", N: 1}, {K: "back", N: 3}}
	for _, s := range words("a \n", bySize(thorough, 3, 4)) {
		var rec func(left int, have []Op)
		rec = func(left int, have []Op) {
			if len(have) > 0 {
				f(&Case{In: []string{s}, Ops: have})
			}
			if left == 0 {
				return
			}
			for _, o := range ops {
				rec(left-1, append(have[:len(have):len(have)], o))
			}
		}
		rec(4, nil)
	}
}

func enumC21(thorough bool, f func(*Case)) {
	t := leafChars("b")
	t.Ann = "~"
	for _, g := range []*Gram{
		{[]Rule{{"r", &Expr{K: "cat", Kids: []*Expr{leafRef("", "s"), inRep(0, 0)(leafRef("", "s"))}}}, {"s", &Expr{K: "choice", Groups: [][]*Expr{{leafChars("a"), leafString("ab")}, {t}}}}}},
		{[]Rule{{"r", &Expr{K: "choice", Groups: [][]*Expr{{&Expr{K: "cat", Kids: []*Expr{leafRef("~", "s"), leafString("b")}}, leafRef("", "s")}}}}, {"s", annotated("#", inRep(1, 2))(leafChars("ab"))}}},
		{[]Rule{{"r", &Expr{K: "block", Open: leafChars("a"), Esc: leafChars("b"), Close: leafRef("", "s")}}, {"s", &Expr{K: "cat", Kids: []*Expr{t, leafChars("a")}}}}},
	} {
		var ops []Op
		for _, o := range []Op{{K: "rule"}, {K: "rule", N: 1}, {K: "rule", S: "s"}, {K: "cont"}, {K: "cont", S: "s", M: 1}, {K: "whole"}, {K: "level", M: 2}, {K: "embed", N: 1}, {K: "undef"},
			{K: "simp", M: 0}, {K: "simp", M: 5}, {K: "simp", M: 10}, {K: "string"}, {K: "count"}, {K: "restart"}, {K: "badrule"}} {
			if o.S == "" {
				o.S = "r"
			}
			ops = append(ops, o)
		}
		var rec func(left int, have []Op)
		rec = func(left int, have []Op) {
			if len(have) > 0 {
				last := have[len(have)-1].K
				if last == "restart" || last == "badrule" || last == "undef" && len(have) > 1 && have[len(have)-2].K == "undef" {
					goto more
				}
				f(&Case{G: g, Rule: "r", In: []string{"aab ab", "abba"}, Ops: have})
			}
		more:
			if left == 0 {
				return
			}
			for _, o := range ops {
				rec(left-1, append(have[:len(have):len(have)], o))
			}
		}
		rec(bySize(thorough, 4, 5), nil)
	}
}

func enumC18(thorough bool, f func(*Case)) {
	long, short := words("ab ", 4), words("ab ", 3)
	fullWorld().upTo(2, func(e *Expr) { f(&Case{G: oneRule(e), Rule: "r", In: long}) })
	smallWorld().upTo(3, func(e *Expr) { f(&Case{G: oneRule(e), Rule: "r", In: long}) })
	fullWorld().each(3, func(e *Expr) { f(&Case{G: oneRule(e), Rule: "r", In: short}) })
	if thorough {
		smallWorld().each(4, func(e *Expr) { f(&Case{G: oneRule(e), Rule: "r", In: short}) })
		fullWorld().each(4, func(e *Expr) { f(&Case{G: oneRule(e), Rule: "r", In: short}) })
	}
}

func enumC19(thorough bool, f func(*Case)) {
	toks := []string{"{", "}", "[", "]", ",", ":", `"k"`, "1", "null"}
	tokenSeqs(toks, bySize(thorough, 5, 6), func(ts []string) { f(&Case{Kind: "json tokens", In: []string{strings.Join(ts, " ")}}) })
}

func enumC23(thorough bool, f func(*Case)) {
	w := newWorld(fullOps[:4], leafChars("a"), leafString("b"), leafRange('a', 'b'), leafChars("ab"), leafString(""), leafRef("", "u"), leafEOF(),
		&Expr{K: "block", Open: leafChars("a"), Close: leafChars("b"), Ex: []*Expr{leafChars(" "), leafString("aa")}})
	in, i := words("ab ", 3), 0
	do := func(e *Expr) {
		i++
		c := &Case{G: oneRule(e), Rule: "r", In: in, N: i % 2, Flag: []int{flagS, flagNS, flagN}[i%3]}
		f(c)
	}
	w.upTo(bySize(thorough, 3, 4), do)
}

func enumC25(thorough bool, f func(*Case)) {
	w := newWorld(smallOps, leafChars("a"), leafString("b"), leafChars("ab"), leafRef("", "s"), leafRef("~", "t"), leafEOF())
	rest := []Rule{{"s", &Expr{K: "choice", Groups: [][]*Expr{{leafChars("a"), leafString("b")}}}}, {"t", &Expr{K: "cat", Kids: []*Expr{leafRef("", "s"), leafString("b")}}}}
	in, i := words("ab ", 3), 0
	do := func(e *Expr) {
		i++
		f(&Case{G: &Gram{append([]Rule{{"r", e}}, rest...)}, Rule: "r", In: in, L2: scatter(i), Def: "b a\n ab"[i%4:], N: i % 3})
	}
	w.upTo(bySize(thorough, 3, 4), do)
}

func enumC26(thorough bool, f func(*Case)) {
	w := newWorld(append(smallOps, inRep(0, 1), inRep(2, 3), inRep(3, 3)), leafChars("a"), leafString("b"), leafChars("ab"), leafRef("", "s"))
	s := Rule{"s", &Expr{K: "choice", Groups: [][]*Expr{{leafChars("a")}, {leafString("ab"), leafString("b")}}}}
	in := words("ab ", 3)
	do := func(e *Expr) {
		places := 0
		(&Gram{[]Rule{{"r", e}, s}}).walk(func(*Expr) { places++ })
		for at := 0; at < places; at++ {
			for how := 0; how < 11; how++ {
				f(&Case{G: &Gram{[]Rule{{"r", e}, s}}, Rule: "r", In: in, N: 1, L2: []byte{byte(at), byte(how), byte(at + how), 1}})
			}
		}
	}
	w.upTo(2, do)
	if thorough {
		w.each(3, do)
	} else {
		i := 0
		w.each(3, func(e *Expr) {
			if i++; i%16 == 0 {
				do(e)
			}
		})
	}
}

// smallWorlds says which checks have an enumerated part
func smallWorlds() {
	flags := func(c *Case, i int) { c.N, c.Flag = i%2, []int{flagS, flagNS, flagN}[i%3] }
	for id, f := range map[string]func(bool, func(*Case)){
		"C01": enumC01,
		"C02": evalCases("ab ", nil),
		"C03": enumC03,
		"C04": enumC04,
		"C05": evalCases("ab ", flags),
		"C06": evalCases("ab\n", func(c *Case, i int) { c.N, c.M = i%2, i%4 }),
		"C07": enumC07,
		"C08": enumC08,
		"C09": enumC09,
		"C10": notations,
		"C11": enumC11,
		"C12": enumC12,
		"C13": treeCases("sn", "sn", 4, 5),
		"C14": treeCases("vds", "vd", 3, 4),
		"C15": treeCases("snv", "sd", 3, 4),
		"C16": enumC16,
		"C18": enumC18,
		"C19": enumC19,
		"C20": notations,
		"C21": enumC21,
		"C23": enumC23,
		"C24": func(thorough bool, f func(*Case)) {
			notations(thorough, func(c *Case) {
				c.N, c.M = 1+c.N%6, c.N%2
				f(c)
			})
		},
		"C25": enumC25,
		"C26": enumC26,
	} {
		checks[id].Enum = f
	}
}
