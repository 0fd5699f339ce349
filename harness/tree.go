package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// aspects of a syntax tree that a check compares
const (
	mShape  = 1 << iota // types of nodes, number of children, text of leaves
	mPos                // positions
	mName               // rule names
	mFlags              // $ ~ # annotations
	mSticky             // stickiness
)

// lineCol gives the 1-based line and column of an offset: a newline belongs to the line it ends
func lineCol(text []rune, off int) (int, int) {
	line, col := 1, 1
	for i := 0; i < off && i < len(text); i++ {
		if text[i] == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col
}

func posString(p *xbnf.Position) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("L%d:%d", p.Line, p.Col)
}

func offString(text []rune, off int) string {
	if off < 0 {
		return "none"
	}
	l, c := lineCol(text, off)
	return fmt.Sprintf("L%d:%d", l, c)
}

// diffTree tells the first difference between a node and the expected node, "" when there is none
func diffTree(n *xbnf.Node, w *MNode, text []rune, mask int, path string) string {
	if n == nil {
		return path + ": nil node"
	}
	if mask&mShape != 0 {
		if string(n.RuleType) != w.Type {
			return fmt.Sprintf("%s: node type %q, want %q", path, n.RuleType, w.Type)
		}
		if string(n.Chars) != string(w.Chars) {
			return fmt.Sprintf("%s: chars %q, want %q", path, string(n.Chars), string(w.Chars))
		}
	}
	if len(n.ChildNodes) != len(w.Kids) {
		if mask&mShape == 0 {
			return ""
		}
		return fmt.Sprintf("%s: %d child nodes, want %d", path, len(n.ChildNodes), len(w.Kids))
	}
	if mask&mName != 0 && n.RuleName != w.Name {
		return fmt.Sprintf("%s: rule name %q, want %q", path, n.RuleName, w.Name)
	}
	if mask&mFlags != 0 && (n.Tokenized != w.Tok || n.Virtual != w.Virt || n.NonData != w.Non) {
		return fmt.Sprintf("%s: $%v ~%v #%v, want $%v ~%v #%v", path, n.Tokenized, n.Virtual, n.NonData, w.Tok, w.Virt, w.Non)
	}
	if mask&mSticky != 0 && n.Sticky != w.Sticky {
		return fmt.Sprintf("%s: sticky %v, want %v", path, n.Sticky, w.Sticky)
	}
	if mask&mPos != 0 {
		if g, e := posString(n.Position), offString(text, w.Off); g != e {
			return fmt.Sprintf("%s (%s %q): position %s, want %s", path, w.Type, string(mText(w)), g, e)
		}
	}
	for i := range w.Kids {
		if d := diffTree(n.ChildNodes[i], w.Kids[i], text, mask, fmt.Sprintf("%s/%d", path, i)); d != "" {
			return d
		}
	}
	return ""
}

func sameShape(n *xbnf.Node, w *MNode) bool { return diffTree(n, w, nil, mShape, "") == "" }

// fromReal copies a real tree into the model's form. Positions are kept as line<<20|col
func fromReal(n *xbnf.Node) *MNode {
	w := &MNode{Type: string(n.RuleType), Name: n.RuleName, Off: -1, Sticky: n.Sticky, Tok: n.Tokenized, Virt: n.Virtual, Non: n.NonData}
	w.Chars = append([]rune{}, n.Chars...)
	if n.Position != nil {
		w.Off = n.Position.Line<<20 | n.Position.Col
	}
	for _, k := range n.ChildNodes {
		w.Kids = append(w.Kids, fromReal(k))
	}
	return w
}

func toReal(w *MNode) *xbnf.Node {
	n := &xbnf.Node{RuleType: xbnf.Type(w.Type), RuleName: w.Name, Sticky: w.Sticky, Tokenized: w.Tok, Virtual: w.Virt, NonData: w.Non}
	if len(w.Chars) > 0 {
		n.Chars = append([]rune{}, w.Chars...)
	}
	if w.Off >= 0 {
		n.Position = &xbnf.Position{Line: w.Off >> 20, Col: w.Off & (1<<20 - 1)}
	}
	for _, k := range w.Kids {
		n.ChildNodes = append(n.ChildNodes, toReal(k))
	}
	return n
}

// dump writes all of a real tree; two trees are the same when their dumps are
func dump(n *xbnf.Node) string {
	var b strings.Builder
	dumpTo(&b, n)
	return b.String()
}

func dumpTo(b *strings.Builder, n *xbnf.Node) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	fmt.Fprintf(b, "(%s:%s:%q@%s", n.RuleType, n.RuleName, string(n.Chars), posString(n.Position))
	for _, f := range []struct {
		on bool
		s  string
	}{{n.Sticky, "+"}, {n.Tokenized, "$"}, {n.Virtual, "~"}, {n.NonData, "#"}} {
		if f.on {
			b.WriteString(f.s)
		}
	}
	for _, k := range n.ChildNodes {
		dumpTo(b, k)
	}
	b.WriteString(")")
}

func dumpW(w *MNode) string { return dump(toReal(w)) }

func dumpNodes(ns []*xbnf.Node) string {
	var b strings.Builder
	for _, n := range ns {
		dumpTo(&b, n)
		b.WriteString("\n")
	}
	return b.String()
}

// ---------------------------------------------------------------- model of text and simplification

func isEOFChars(c []rune) bool { return len(c) == 1 && c[0] == -1 }

// mText is the text of a node: the texts of its leaves, with one space between neighbours that are not both
// sticky, unless there is already whitespace, and none in a block
func mText(w *MNode) []rune {
	if len(w.Chars) > 0 {
		if isEOFChars(w.Chars) {
			return nil
		}
		return w.Chars
	}
	var out []rune
	glued := true // everything since (and including) the last non-empty neighbour is sticky
	for _, k := range w.Kids {
		t := mText(k)
		if len(t) == 0 {
			glued = glued && k.Sticky
			continue
		}
		if w.Type != "block" && len(out) > 0 && !wsp(out[len(out)-1]) && !wsp(t[0]) && !(glued && k.Sticky) {
			out = append(out, ' ')
		}
		out = append(out, t...)
		glued = k.Sticky
	}
	return out
}

// mergeList joins runs of neighbouring sticky nodes into the first of each run
func mergeList(in []*MNode) []*MNode {
	var out []*MNode
	for i := 0; i < len(in); {
		n := in[i]
		if !n.Sticky {
			mergeNode(n)
			out = append(out, n)
			i++
			continue
		}
		j := i
		var text []rune
		for ; j < len(in) && in[j].Sticky; j++ {
			text = append(text, mText(in[j])...)
			if j > i && n.Off < 0 {
				n.Off = in[j].Off
			}
		}
		// findings: what the annotations of merged nodes meant is lost
		lost := func(m *MNode) (flags, tok bool) {
			m.walk(func(x *MNode) {
				if x.Type == "EOF" {
					return
				}
				flags = flags || x.Virt || x.Non
				tok = tok || x.Tok
			})
			return
		}
		for k := i; k < j; k++ {
			f, t := lost(in[k])
			if k == i && j == i+1 {
				// a node on its own keeps its own annotations, those of its descendants are lost
				f = false
				for _, kid := range in[k].Kids {
					ff, _ := lost(kid)
					f = f || ff
				}
				t = false
			}
			n.mergedFlags = n.mergedFlags || f
			n.mergedTok = n.mergedTok || t
		}
		n.wasMerged = j > i+1
		n.Chars = text
		n.Kids = nil
		n.Sticky = false
		out = append(out, n)
		i = j
	}
	return out
}

func mergeNode(n *MNode) {
	if len(n.Kids) == 0 {
		return
	}
	if n.Type == "block" {
		for _, k := range n.Kids {
			mergeNode(k)
			k.Sticky = false
		}
		n.Sticky = false
		return
	}
	n.Kids = mergeList(n.Kids)
}

func filterList(in []*MNode, drop func(*MNode) bool) []*MNode {
	var out []*MNode
	for _, n := range in {
		if drop(n) {
			continue
		}
		n.Kids = filterList(n.Kids, drop)
		out = append(out, n)
	}
	return out
}

func isVirtual(n *MNode) bool { return n.Virt }
func isNonData(n *MNode) bool { return n.Non }

func canHoist(parent, child *MNode) bool { return parent.Type != "block" && child.Type != "block" }

// redundant removes nodes that have no name and add nothing: they are replaced by their children, an only
// unnamed leaf becomes the text of its parent, and unnamed empty nodes are dropped
func redundant(n *MNode) {
	if len(n.Kids) == 0 {
		return
	}
	for _, k := range n.Kids {
		redundant(k)
	}
	if len(n.Kids) == 1 && n.Kids[0].Name == "" {
		only := n.Kids[0]
		if len(only.Chars) > 0 {
			n.Chars, n.Kids = only.Chars, nil
		} else if canHoist(n, only) {
			n.Kids = only.Kids
		}
	}
	var kids []*MNode
	for _, k := range n.Kids {
		switch {
		case k.Name == "" && len(k.Kids) == 0 && len(mText(k)) == 0:
		case k.Name == "" && len(k.Kids) > 0 && canHoist(n, k):
			kids = append(kids, k.Kids...)
		default:
			kids = append(kids, k)
		}
	}
	n.Kids = kids
	if len(n.Kids) == 1 && n.Kids[0].Name == "" && len(n.Kids[0].Kids) == 0 {
		n.Chars, n.Kids = n.Kids[0].Chars, nil
	}
}

func (n *MNode) walk(f func(*MNode)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

func (n *MNode) clone() *MNode {
	c := *n
	c.Chars = append([]rune{}, n.Chars...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func cloneList(in []*MNode) []*MNode {
	var out []*MNode
	for _, n := range in {
		out = append(out, n.clone())
	}
	return out
}

func (n *MNode) count() int {
	c := 0
	n.walk(func(*MNode) { c++ })
	return c
}

func leavesOf(ns []*MNode) []*MNode {
	var out []*MNode
	for _, n := range ns {
		n.walk(func(x *MNode) {
			if len(x.Kids) == 0 {
				out = append(out, x)
			}
		})
	}
	return out
}

// diffList compares a list of nodes
func diffList(ns []*xbnf.Node, ws []*MNode, text []rune, mask int) string {
	if len(ns) != len(ws) {
		return fmt.Sprintf("%d top nodes, want %d", len(ns), len(ws))
	}
	for i := range ws {
		if d := diffTree(ns[i], ws[i], text, mask, fmt.Sprintf("node %d", i)); d != "" {
			return d
		}
	}
	return ""
}

// covers tells if the leaves, in order, account for every char of used: between them there may only be
// whitespace.
func covers(used []rune, leaves [][]rune) bool {
	// reach is the set of offsets up to which the leaves so far can account for
	reach := map[int]bool{0: true}
	for _, l := range leaves {
		if len(l) == 0 {
			continue
		}
		next := map[int]bool{}
		for off := range reach {
			at := off
			for {
				if at+len(l) <= len(used) && string(used[at:at+len(l)]) == string(l) {
					next[at+len(l)] = true
				}
				if at < len(used) && wsp(used[at]) {
					at++
					continue
				}
				break
			}
		}
		reach = next
		if len(reach) == 0 {
			return false
		}
	}
	for off := range reach {
		at := off
		for at < len(used) && wsp(used[at]) {
			at++
		}
		if at == len(used) {
			return true
		}
	}
	return false
}

func realLeaves(n *xbnf.Node, out *[][]rune) {
	if len(n.ChildNodes) == 0 {
		if !isEOFChars(n.Chars) && len(n.Chars) > 0 {
			*out = append(*out, n.Chars)
		}
		return
	}
	for _, k := range n.ChildNodes {
		realLeaves(k, out)
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
