package main

// Programs made by changing the text of valid ones.  The reference parser tells
// what the changed text means, or that it is not B.

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// pieces cuts a text into words, numbers, literals, comments, white space and
// operators.
func pieces(src string) []string {
	var l []string
	for i := 0; i < len(src); {
		k := i + 1
		c := src[i]
		switch {
		case c <= ' ':
			for k < len(src) && src[k] <= ' ' {
				k++
			}
		case strings.HasPrefix(src[i:], "/*"):
			k = len(src)
			if j := strings.Index(src[i+2:], "*/"); j >= 0 {
				k = i + j + 4
			}
		case isWordByte(c):
			for k < len(src) && isWordByte(src[k]) {
				k++
			}
		case c == '\'' || c == '"':
			for k < len(src) && src[k] != c {
				if src[k] == '*' {
					k++
				}
				k++
			}
			k++
			if k > len(src) {
				k = len(src)
			}
		default:
			for _, o := range refOps {
				if strings.HasPrefix(src[i:], o) {
					k = i + len(o)
					break
				}
			}
		}
		l = append(l, src[i:k])
		i = k
	}
	return l
}

func isSpacePiece(x string) bool { return x[0] <= ' ' || strings.HasPrefix(x, "/*") }

var binOpTexts = []string{"|", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%"}
var numTexts = []string{"0", "1", "2", "3", "7", "8", "010", "'a'", "'*n'", "''", "'ab'", "64", "255", "00"}

// mutate changes a text a little.  own tells that new text is taken from
// operators, numbers and the text itself only, so that no new names appear.
func mutate(s *Src, src string, own bool) string {
	l := pieces(src)
	if len(l) < 4 {
		return src
	}
	var real, spaces, words, ops, nums []int
	for i, x := range l {
		switch {
		case isSpacePiece(x):
			spaces = append(spaces, i)
			continue
		case isDigit(x[0]) || x[0] == '\'':
			nums = append(nums, i)
		case isWordByte(x[0]):
			words = append(words, i)
		case x[0] != '"':
			ops = append(ops, i)
		}
		real = append(real, i)
	}
	if len(real) < 4 || len(words) == 0 || len(ops) == 0 {
		return src
	}
	anyTok := func() string {
		switch s.N(5) {
		case 0:
			return pick(s, refOps)
		case 1:
			return pick(s, bKeywords)
		case 2:
			return pick(s, numTexts)
		}
		return l[pick(s, real)]
	}
	r := append([]string(nil), l...)
	insert := func(i int, x string) {
		r = append(append(append([]string(nil), r[:i]...), x), r[i:]...)
	}
	switch s.Weighted(4, 3, 3, 3, 4, 4, 3, 3, 3, 2, 2, 4, 2, 2) {
	case 0: // without a token
		r[pick(s, real)] = pick(s, []string{"", " "})
	case 1: // a token twice
		i := pick(s, real)
		insert(i, pick(s, []string{"", " "})+l[i])
	case 2: // two tokens swapped
		k := s.N(len(real) - 1)
		i, j := real[k], real[k+1]
		if s.P(1, 3) {
			j = pick(s, real)
		}
		r[i], r[j] = r[j], r[i]
	case 3: // another token
		r[pick(s, real)] = anyTok()
	case 4: // another operator
		i := pick(s, ops)
		if containsS(asgOps, l[i]) && s.P(3, 4) {
			r[i] = pick(s, asgOps)
		} else if containsS(binOpTexts, l[i]) && s.P(3, 4) {
			r[i] = pick(s, binOpTexts)
		} else {
			r[i] = pick(s, refOps)
		}
	case 5: // another name
		r[pick(s, words)] = l[pick(s, words)]
	case 6: // without the space
		if len(spaces) > 0 {
			r[pick(s, spaces)] = ""
		}
	case 7: // a token more
		insert(pick(s, real), anyTok()+pick(s, []string{"", " "}))
	case 8: // a prefix operator
		insert(pick(s, real), pick(s, []string{"-", "!", "*", "&", "++", "--", "- ", "(", "1+", "0?", "1?2:", "goto ", "if(1)", "while(0)", "{", ";", "a:", "extrn ", "auto ", "return", "case 1:", "else "}))
	case 9: // a range is removed
		a := s.N(len(r))
		b := a + 1 + s.N(8)
		if b > len(r) {
			b = len(r)
		}
		r = append(append([]string(nil), r[:a]...), r[b:]...)
	case 10: // a range is copied or moved
		a := s.N(len(l))
		b := a + 1 + s.N(8)
		if b > len(l) {
			b = len(l)
		}
		insert(s.N(len(r)), strings.Join(l[a:b], ""))
	case 11: // a statement or a part in brackets goes elsewhere
		// from behind a ; { } to the next ;
		var ends []int
		for i, x := range l {
			if x == ";" || x == "{" || x == "}" {
				ends = append(ends, i)
			}
		}
		if len(ends) < 3 {
			break
		}
		k := s.N(len(ends) - 1)
		st := strings.Join(l[ends[k]+1:ends[k+1]+1], "")
		d := ends[s.N(len(ends))]
		if s.P(1, 4) { // and is no more where it was
			for i := ends[k] + 1; i <= ends[k+1]; i++ {
				r[i] = ""
			}
		}
		if d < len(r) {
			r[d] += st
		}
	case 12: // a character
		i := pick(s, real)
		x := l[i]
		k := s.N(len(x))
		c := "_x0159'\"*/=<>!+-&|%()[]{};:,? \n"
		ch := string(c[s.N(len(c))])
		switch s.N(3) {
		case 0:
			r[i] = x[:k] + x[k+1:]
		case 1:
			r[i] = x[:k] + ch + x[k:]
		case 2:
			r[i] = x[:k] + ch + x[k+1:]
		}
	case 13: // another number
		if len(nums) > 0 {
			r[pick(s, nums)] = pick(s, numTexts)
		}
	}
	return strings.Join(r, "")
}

func mutateSome(s *Src, src string) string {
	for k, n := 0, s.Weighted(0, 6, 2, 1); k < n; k++ {
		src = mutate(s, src, true)
	}
	return src
}

// mutateUnit changes the text of a unit; nil when nothing comes of it.
func mutateUnit(s *Src, u *Unit) *Unit {
	pfx := u.Pfx
	if pfx == "" {
		pfx = u.Entry[:strings.IndexByte(u.Entry, '_')+1]
	}
	tops := map[string]bool{}
	for _, d := range u.Decls[0] {
		tops[d.Name] = true
	}
	src := mutateSome(s, u.Src[0])
	if src == u.Src[0] {
		return nil
	}
	ds, kind, reject, unsure := refParseNames(src)
	if reject != "" || unsure != "" || len(ds) != len(tops) {
		return nil
	}
	for _, d := range ds {
		if !tops[d.Name] {
			return nil
		}
	}
	for n, k := range kind {
		if k == 'v' && !tops[n] {
			return nil
		}
	}
	v := *u
	v.Decls = [][]*Decl{ds}
	v.Src = []string{src}
	v.lays = 26
	v.Class = append(append([]string{}, u.Class...), "text-changed")
	return &v
}

// genTextCase: a changed program is accepted or rejected as B's rules say.
func genTextCase(s *Src) *Case {
	mode := rejectModes[s.Weighted(6, 1, 1, 1, 1, 1, 1, 1)]
	var src string
	from := "text"
	if s.P(1, 3) {
		from = "wild"
		p, _ := wildProgram(s)
		src = joinTokens(s, tokens(p, nil), s.P(1, 3))
		if s.P(1, 3) {
			src = mutateSome(s, src)
		}
	} else {
		ds, es := poolProgram(s, 1, 1)
		ds = append(ds, mainDecl(es...))
		if s.P(1, 3) {
			shuffle(s, ds)
		}
		src = mutateSome(s, joinTokens(s, tokens(&Prog{Decls: ds}, nil), s.P(1, 3)))
	}
	_, reject, unsure := refParse(src)
	if unsure != "" {
		trap("unsure: %s", refClass(unsure))
	}
	c := &Case{Text: src, Files: map[string]string{"p.b": src}, Order: []string{"p.b"}}
	if reject != "" {
		c.Class = []string{from + ":rejected", from + ": " + refClass(reject)}
		c.Text = "/* invalid: " + strings.ReplaceAll(reject, "*/", "* /") + " */\n" + src
		c.Cmd = "blang " + strings.Join(mode, " ") + " p.b"
		c.Run = func() verdict {
			v := rejected(src, mode, false, "")
			v.what += " (text)"
			return v
		}
		return c
	}
	c.Class = []string{from + ":accepted"}
	c.Cmd = "blang --emit-llvm p.b"
	c.Run = func() verdict {
		v := accepted(src)
		v.what += " (text)"
		return v
	}
	return c
}

// refClass is the message without the names.
func refClass(m string) string {
	if i, j := strings.IndexByte(m, '\''), strings.LastIndexByte(m, '\''); i >= 0 && j > i {
		return m[:i] + "X" + m[j+1:]
	}
	return m
}

// selfTest: the printer and the reference parser are inverse, as far as the
// interpreter can tell.
func selfTest(n int) {
	var ids []string
	for id, uc := range unitChecks {
		if id != "P19" {
			ids = append(ids, id)
		}
		_ = uc
	}
	sort.Strings(ids)
	for _, id := range ids {
		done := 0
		for i := 0; i < n; i++ {
			s := NewSrc(seedOf(uint64(seed), strSeed(id), uint64(i)))
			g := unitChecks[id].pickGen(s)
			u, err := g.make(s, "u0_")
			if err != nil || len(u.Src) > 1 {
				continue
			}
			ds, reject, unsure := refParse(u.Src[0])
			if reject != "" {
				infra("selftest %s: rejected: %s\n%s", id, reject, u.Src[0])
			}
			if unsure != "" {
				continue
			}
			v := *u
			v.Decls = [][]*Decl{ds}
			err = v.finish(s)
			if err != nil || !bytes.Equal(v.Want.Stdout, u.Want.Stdout) || !bytes.Equal(v.Want.Stderr, u.Want.Stderr) {
				infra("selftest %s: other outcome, %v\n%s\n%s\n%s", id, err, u.Src[0], showWords(u.Want.Stdout), showWords(v.Want.Stdout))
			}
			done++
		}
		fmt.Printf("selftest %s: %d of %d programs\n", id, done, n)
	}
}
