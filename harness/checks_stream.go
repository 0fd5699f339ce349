package main

import (
	"fmt"
	"unicode"

	"github.com/cnsgfk/xbnf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C16 the stream against a list with a cursor

const alphaStream = "ab\n\n \t\r\u00a0\u2028é\U0001F600\n\u200b\x00\ufeff"

func init() {
	register(&Check{
		ID: "C16", Quick: 600000, Thorough: 8000000,
		Rule: "a case is a text and a history of 1-40 operations (next, peek, match, skip spaces, cursor, position, position lookup, put back the last n chars) on a stream and on a list with a cursor; non-trivial: the text has a newline, and chars were put back or matched",
		Draw: drawC16,
		Run:  runC16,
		Once: onceC16, OnceN: 0x110000,
	})
}

func drawC16(t *rapid.T) *Case {
	alpha := []rune(alphaStream)
	if pick(t, 4) == 0 {
		alpha = []rune("a \n")
	}
	var text []rune
	for n := pick(t, 1+[]int{6, 16, 40}[pick(t, 3)]); n > 0; n-- {
		text = append(text, alpha[pick(t, len(alpha))])
	}
	long := pick(t, 12) == 11
	if long { // runs of chars: many lines, long lines, much whitespace
		for n := 1 + pick(t, 8); n > 0; n-- {
			run := 1 + pick(t, 300)
			if len(text) < 5000 && pick(t, 80) == 79 {
				run = []int{1024, 2048, 4096, 4096, 8192, 65536}[pick(t, 6)] + pick(t, 200)
			}
			set := alpha
			if run > 1000 || pick(t, 2) == 0 {
				set = alpha[pick(t, len(alpha)):][:1]
			}
			for ; run > 0; run-- {
				text = append(text, set[pick(t, len(set))])
			}
		}
	}
	c := &Case{In: []string{string(text)}}
	if pick(t, 12) == 11 { // bytes that are no chars
		raw := []byte(c.In[0])
		for n := 1 + pick(t, 4); n > 0; n-- {
			at := pick(t, len(raw)+1)
			bad := []string{"\xff", "\x80", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xc0\x80", "\xf5", "\xef\xbf\xbd"}[pick(t, 8)]
			raw = append(raw[:at:at], append([]byte(bad), raw[at:]...)...)
		}
		c.In, c.Raw = nil, raw
		text = []rune(string(raw))
	}
	backs := []int{3, 0, 8}[pick(t, 3)]
	for n := 1 + pick(t, 40); n > 0; n-- {
		o := Op{}
		switch weighted(t, []int{8, 4, 4, 3, 2, 4, 4, backs}) {
		case 0:
			o.K = "next"
		case 1:
			o.K = "peek"
		case 2:
			o.K, o.N, o.M = "match", pick(t, 5), pick(t, 6)
			if pick(t, 3) == 0 { // what is nearly there
				o.S = nearMatches[pick(t, len(nearMatches))]
			}
		case 3:
			o.K = "skip"
		case 4:
			o.K = "cursor"
		case 5:
			o.K = "position"
		case 6:
			o.K, o.N = "lookup", pick(t, len(text)+3)-1
		case 7:
			o.K, o.N = "back", 1+pick(t, 6)
		}
		if long && pick(t, 3) == 0 {
			switch o.K {
			case "next":
				o.K, o.N = "nexts", 1+pick(t, 400)
			case "match":
				o.N, o.M = pick(t, 100), pick(t, 200)
			case "back":
				o.N = 1 + pick(t, 400)
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// nearMatches are ways to change a text that is there
var nearMatches = []string{"newlines", "returns", "spaces", "marks", "case", "one space", "wide"}

func nearMatch(how string, in []rune) (out []rune) {
	for i, c := range in {
		switch {
		case how == "newlines" && c == '\r' && i+1 < len(in) && in[i+1] == '\n', how == "spaces" && wsp(c), how == "marks" && (c == 0x200b || c == 0xfeff || c == 0):
			continue
		case how == "newlines" && c == '\n' && (i == 0 || in[i-1] != '\r'):
			out = append(out, '\r')
		case how == "returns" && c == '\r':
			c = '\n'
		case how == "returns" && c == '\n':
			c = '\r'
		case how == "case":
			c = unicode.SimpleFold(c)
		case how == "one space" && wsp(c):
			c = ' '
		case how == "wide" && c > 0xff:
			c &= 0xff
		}
		out = append(out, c)
	}
	return out
}

func runC16(c *Case, x *Ctx) {
	in0 := string(c.Raw)
	if len(c.In) > 0 {
		in0 = c.In[0]
	}
	x.ClassIf(len(c.In) == 0, "bytes that are no chars")
	text := []rune(in0)
	cs := xbnf.NewCharstreamFromString(in0)
	cur, top := 0, 0 // cursor, and how many chars have been read of the text itself
	layers, newline, moved := 0, false, false
	for _, r := range text {
		newline = newline || r == '\n'
	}
	lines, cols := make([]int, len(text)+1), make([]int, len(text)+1)
	for i, l, col := 0, 1, 1; i <= len(text); i++ {
		lines[i], cols[i] = l, col
		if col++; i < len(text) && text[i] == '\n' {
			l, col = l+1, 1
		}
	}
	at := func(off int) string { return fmt.Sprintf("L%d:%d", lines[off], cols[off]) }
	x.ClassIf(len(text) > 1000, "long text")
	x.ClassIf(len(text) > 4096, "very long text")
	// of very long texts, not each position is looked up
	skipped := func(i int) bool {
		return len(text) > 1000 && i%101 != 0 && i < len(text)-3 && (i < 2 || text[i] != '\n' || text[i-1] == '\n')
	}
	checkPos := func(what string) {
		want := "none"
		if cur < len(text) {
			want = at(cur)
		}
		if p := posString(cs.Position()); p != want {
			x.Failf("%s: position at char %d is %s, want %s", what, cur, p, want)
		}
	}
	for i, o := range c.Ops {
		what := fmt.Sprintf("step %d, %s(%d,%d)", i, o.K, o.N, o.M)
		switch o.K {
		case "next":
			want := rune(xbnf.EOFChar)
			if cur < len(text) {
				want = text[cur]
				cur++
			}
			if r := cs.Next(); r != want {
				x.Failf("%s: %q, want %q", what, r, want)
			}
		case "nexts":
			for k := 0; k < o.N; k++ {
				want := rune(xbnf.EOFChar)
				if cur < len(text) {
					want = text[cur]
					cur++
				}
				if r := cs.Next(); r != want {
					x.Failf("%s: %q at %d, want %q", what, r, k, want)
				}
			}
		case "peek":
			want := rune(xbnf.EOFChar)
			if cur < len(text) {
				want = text[cur]
			}
			if r := cs.Peek(); r != want {
				x.Failf("%s: %q, want %q", what, r, want)
			}
			x.ClassIf(want == xbnf.EOFChar, "peek at the end")
		case "match":
			var in []rune
			for k := 0; k < o.N; k++ {
				if cur+k < len(text) {
					in = append(in, text[cur+k])
				} else {
					in = append(in, 'z')
				}
			}
			if o.M < len(in) {
				in[o.M] = 'Z'
			}
			if o.S != "" {
				in = nearMatch(o.S, in)
			}
			want, ok := []rune{}, true
			for _, r := range in {
				if cur >= len(text) {
					ok = false
					break
				}
				want = append(want, text[cur])
				cur++
				if text[cur-1] != r {
					ok = false
					break
				}
			}
			arg := append([]rune{}, in...)
			got, gotOK := cs.Match(arg)
			if gotOK != ok || string(got) != string(want) {
				x.Failf("%s of %q: %q %v, want %q %v", what, string(in), string(got), gotOK, string(want), ok)
			}
			_ = append(got, 'Q') // what is given is the caller's
			if string(arg) != string(in) {
				x.Failf("%s: the argument was changed", what)
			}
			moved = moved || len(want) > 0
			x.ClassIf(!ok, "failed match")
			x.ClassIf(ok && len(want) > 0, "match")
		case "skip":
			want := []rune{}
			for cur < len(text) && wsp(text[cur]) {
				want = append(want, text[cur])
				cur++
			}
			got := cs.SkipSpaces()
			if string(got) != string(want) {
				x.Failf("%s: %q, want %q", what, string(got), string(want))
			}
			_ = append(got, 'Q', 'Q')
			x.ClassIf(len(want) > 0, "spaces skipped")
		case "cursor":
			if got := cs.Cursor(); got != cur {
				x.Failf("%s: %d, want %d", what, got, cur)
			}
		case "position":
			checkPos(what)
		case "lookup":
			got := posString(cs.PositionLookup(o.N))
			switch {
			case o.N >= 0 && o.N < cur:
				if got != at(o.N) {
					x.Failf("%s: %s, want %s", what, got, at(o.N))
				}
				x.Class("lookup")
			case o.N == 0 || o.N > 0 && o.N < top:
				// chars put back: both answers are given
				if got != "none" && got != at(o.N) {
					x.Failf("%s: %s, want none or %s", what, got, at(o.N))
				}
			case got != "none":
				x.Failf("%s: %s, want none", what, got)
			}
		case "back":
			n := o.N
			if n > cur {
				n = cur
			}
			if putBack == nil || n == 0 {
				break
			}
			cs = putBack(cs, append([]rune{}, text[cur-n:cur]...))
			cur -= n
			layers++
			moved = true
			x.Class("chars put back")
		}
		if cur > top {
			top = cur
		}
	}
	x.NonTrivial(newline && moved)
	x.ClassIf(layers > 1, "nested put back")
	x.ClassIf(cur == len(text), "at the end")
	// all that is left
	checkPos("at the end of the history")
	for cur < len(text) {
		if r := cs.Next(); r != text[cur] {
			x.Failf("reading what is left: %q at %d, want %q", r, cur, text[cur])
		}
		cur++
		if skipped(cur) {
			continue
		}
		checkPos("reading what is left")
		if cs.Cursor() != cur {
			x.Failf("reading what is left: cursor %d, want %d", cs.Cursor(), cur)
		}
	}
	for i := 0; i < 3; i++ {
		if a, b, p, n := cs.Peek(), cs.Next(), cs.Position(), cs.Cursor(); a != xbnf.EOFChar || b != xbnf.EOFChar || p != nil || n != len(text) {
			x.Failf("at the end: peek %q, next %q, position %v, cursor %d", a, b, p, n)
		}
		if s := cs.SkipSpaces(); len(s) > 0 {
			x.Failf("at the end: skipped %q", string(s))
		}
		if s, ok := cs.Match([]rune{'a'}); len(s) > 0 || ok {
			x.Failf("at the end: match %q, %v", string(s), ok)
		}
	}
	for i := range text {
		if skipped(i) {
			continue
		}
		if got := posString(cs.PositionLookup(i)); got != at(i) {
			x.Failf("at the end: position of char %d is %s, want %s", i, got, at(i))
		}
	}
}

// onceC16: whitespace is what Unicode says it is, for every code point
func onceC16(x *Ctx) {
	for r := rune(-1); r <= unicode.MaxRune; r++ {
		if xbnf.IsWhiteSpace(r) != unicode.IsSpace(r) {
			x.Failf("IsWhiteSpace(%U) is %v", r, xbnf.IsWhiteSpace(r))
		}
	}
	x.Class("code points classified")
}
