package main

import "github.com/cnsgfk/xbnf"

// listStream is a stream of our own: a list with a cursor, as the interface says it
type listStream struct {
	text []rune
	cur  int
}

func (s *listStream) Next() rune {
	if s.cur >= len(s.text) {
		return xbnf.EOFChar
	}
	s.cur++
	return s.text[s.cur-1]
}

func (s *listStream) Peek() rune {
	if s.cur >= len(s.text) {
		return xbnf.EOFChar
	}
	return s.text[s.cur]
}

func (s *listStream) Match(in []rune) ([]rune, bool) {
	var got []rune
	for _, r := range in {
		c := s.Next()
		if c == xbnf.EOFChar {
			return got, false
		}
		if got = append(got, c); c != r {
			return got, false
		}
	}
	return got, true
}

func (s *listStream) SkipSpaces() []rune {
	var got []rune
	for s.cur < len(s.text) && wsp(s.text[s.cur]) {
		got = append(got, s.Next())
	}
	return got
}

func (s *listStream) at(idx int) *xbnf.Position {
	p := &xbnf.Position{Line: 1, Col: 1}
	for _, r := range s.text[:idx] {
		if p.Col++; r == '\n' {
			p.Line, p.Col = p.Line+1, 1
		}
	}
	return p
}

func (s *listStream) Position() *xbnf.Position {
	if s.cur >= len(s.text) {
		return nil
	}
	return s.at(s.cur)
}

func (s *listStream) PositionLookup(idx int) *xbnf.Position {
	if idx < 0 || idx >= s.cur {
		return nil
	}
	return s.at(idx)
}

func (s *listStream) Cursor() int { return s.cur }
