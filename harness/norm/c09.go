package norm

import (
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// covers asserts that ms are contiguous, in order and cover s, and returns the matches.
func covers(ms []normalizer.OffsetsMatch, s string, what string) (at [][2]int) {
	p := 0
	for i, m := range ms {
		vp.Assert(len(m.Offsets) == 2 && m.Offsets[0] == p && m.Offsets[1] >= p, what+": the parts are contiguous")
		if len(s) > 0 {
			vp.Assert(m.Offsets[1] > p, what+": no part is empty")
		}
		p = m.Offsets[1]
		if m.Match {
			at = append(at, [2]int{m.Offsets[0], m.Offsets[1]})
		} else if i > 0 {
			vp.Assert(ms[i-1].Match, what+": what does not match is in one part")
		}
	}
	vp.Assert(p == len(s), what+": the parts cover the text")
	return at
}

func sameSpans(a, b [][2]int, what string) {
	vp.Assert(len(a) == len(b), what+": number of matches")
	for i := range a {
		vp.Assert(a[i] == b[i], what+": match")
	}
}

func isd(r rune) bool { return r >= '0' && r <= '9' || r >= 0x660 && r <= 0x669 }

// own is a pattern of the caller.
type own struct{ normalizer.Pattern }

// bounds: texts of 0..4 arbitrary characters of 1..3 bytes (thorough 0..5); a rune pattern, a predicate, both also
// inverted, inverted twice and wrapped in a pattern of the caller's own.
func H_C09_rune() {
	s, cs := text(vp.Pick(0, vp.Bound(4, 5)), 3)
	c := char(3)
	var want, wantInv [][2]int
	fn := vp.Bool()
	is := func(r rune) bool { return r == c }
	var p normalizer.Pattern = normalizer.NewRunePattern(c)
	what := "rune pattern"
	if fn {
		is = isd
		p = normalizer.NewFnPattern(isd)
		what = "predicate pattern"
	}
	for _, x := range cs {
		if is(x.r) {
			want = append(want, [2]int{x.a, x.b})
		} else if k := len(wantInv); k > 0 && wantInv[k-1][1] == x.a {
			wantInv[k-1][1] = x.b
		} else {
			wantInv = append(wantInv, [2]int{x.a, x.b})
		}
	}
	switch vp.Pick(0, 3) {
	case 2:
		p, what = own{p}, "own "+what
	case 3:
		p, what = normalizer.NewInvertPattern(normalizer.NewInvertPattern(p)), "twice inverted "+what
	case 1:
		if vp.Bool() {
			p, what = own{p}, "own "+what
		}
		ms := normalizer.NewInvertPattern(p).FindMatches(s)
		if len(s) == 0 {
			return
		}
		at := inverted(ms, s, what)
		sameSpans(at, wantInv, "inverted "+what)
		return
	}
	ms := p.FindMatches(s)
	sameSpans(covers(ms, s, what), want, what)
	vp.Reach("matched")
}

// inverted is covers for an inverted pattern.
func inverted(ms []normalizer.OffsetsMatch, s string, what string) (at [][2]int) {
	p := 0
	for _, m := range ms {
		vp.Assert(m.Offsets[0] == p && m.Offsets[1] > p, "inverted "+what+": the parts are contiguous")
		p = m.Offsets[1]
		if m.Match {
			at = append(at, [2]int{m.Offsets[0], m.Offsets[1]})
		}
	}
	vp.Assert(p == len(s), "inverted "+what+": the parts cover the text")
	return at
}

// bounds: texts of 0..4 bytes (thorough 0..6) over {a,b,.}, needles of 0..2 bytes over the same: leftmost
// non-overlapping occurrences.
func H_C09_string() {
	n := vp.Pick(0, vp.Bound(4, 6))
	s, needle := abc(n), abc(vp.Pick(0, 2))
	var want [][2]int
	for i := 0; len(needle) > 0 && i+len(needle) <= len(s); {
		if s[i:i+len(needle)] == needle {
			want = append(want, [2]int{i, i + len(needle)})
			i += len(needle)
		} else {
			i++
		}
	}
	ms := normalizer.NewStringPattern(needle).FindMatches(s)
	sameSpans(covers(ms, s, "string pattern"), want, "string pattern")
	vp.Reach("matched")
}

// abc is n bytes of {a, b, .}, concrete.
func abc(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "ab."[vp.Pick(0, 2)]
	}
	return string(b)
}

// bounds: texts of 0..4 bytes (thorough 0..6) of printable ASCII, the expressions \s+, [0-9], a|ab, x*: matches cover the
// text and are those of leftmost-first matching.
func H_C09_regexp() {
	s := vp.ASCII(vp.Pick(0, vp.Bound(4, 6)), ' ', 'z')
	switch vp.Pick(0, 2) {
	case 0:
		var want [][2]int
		for i := 0; i < len(s); i++ {
			if s[i] == ' ' {
				if k := len(want); k > 0 && want[k-1][1] == i {
					want[k-1][1]++
				} else {
					want = append(want, [2]int{i, i + 1})
				}
			}
		}
		sameSpans(covers(normalizer.NewRegexpPattern(`\s+`).FindMatches(s), s, "regexp"), want, "regexp")
	case 1:
		var want [][2]int
		for i := 0; i < len(s); i++ {
			if s[i] >= '0' && s[i] <= '9' {
				want = append(want, [2]int{i, i + 1})
			}
		}
		sameSpans(covers(normalizer.NewRegexpPattern(`[0-9]`).FindMatches(s), s, "regexp"), want, "regexp")
	case 2:
		var want [][2]int
		for i := 0; i < len(s); i++ {
			if s[i] == 'a' {
				want = append(want, [2]int{i, i + 1})
				if i+1 < len(s) && s[i+1] == 'b' {
					want[len(want)-1][1]++
				}
			}
		}
		sameSpans(covers(normalizer.NewRegexpPattern(`ab|a`).FindMatches(s), s, "regexp"), want, "regexp")
	}
	vp.Reach("matched")
}

// bounds: texts of 0..4 characters (thorough 0..5), one or two bytes each, every set of matches of 1..2 characters, all
// five behaviours.
func H_C09_split() {
	s, cs := text(vp.Pick(0, vp.Bound(4, 5)), 1)
	if len(cs) > 1 && vp.Bool() {
		cs[1].r = 0xe9
		cs[1].b++
		for i := 2; i < len(cs); i++ {
			cs[i].a++
			cs[i].b++
		}
		s = str(cs)
	}
	p, _ := groups(cs)
	// the parts: matches and what is between them
	type part struct {
		a, b  int
		match bool
	}
	var ps []part
	at := 0
	for _, m := range p {
		if m[0] > at {
			ps = append(ps, part{at, m[0], false})
		}
		ps = append(ps, part{m[0], m[1], true})
		at = m[1]
	}
	if at < len(s) {
		ps = append(ps, part{at, len(s), false})
	}
	beh := normalizer.SplitDelimiterBehavior(vp.Pick(normalizer.RemovedBehavior, normalizer.ContiguousBehavior))
	var want [][2]int
	last := func() *[2]int { return &want[len(want)-1] }
	switch beh {
	case normalizer.RemovedBehavior:
		for _, x := range ps {
			if !x.match {
				want = append(want, [2]int{x.a, x.b})
			}
		}
	case normalizer.IsolatedBehavior:
		for _, x := range ps {
			want = append(want, [2]int{x.a, x.b})
		}
	case normalizer.MergedWithPreviousBehavior:
		for i, x := range ps {
			if x.match && i > 0 && !ps[i-1].match {
				last()[1] = x.b
			} else {
				want = append(want, [2]int{x.a, x.b})
			}
		}
	case normalizer.MergedWithNextBehavior:
		for i, x := range ps {
			if !x.match && i > 0 && ps[i-1].match {
				last()[1] = x.b
			} else {
				want = append(want, [2]int{x.a, x.b})
			}
		}
	case normalizer.ContiguousBehavior:
		for i, x := range ps {
			if i > 0 && x.match == ps[i-1].match {
				last()[1] = x.b
			} else {
				want = append(want, [2]int{x.a, x.b})
			}
		}
	}
	n := normalizer.NewNormalizedFrom(s)
	got := n.Split(p, beh)
	vp.Reach("split")
	k := 0
	for _, g := range got {
		if len(s) == 0 {
			vp.Assert(g.GetNormalized() == "", "nothing comes from an empty text")
			continue
		}
		vp.Assert(k < len(want), "no more parts than the behaviour asks for")
		w := want[k]
		vp.Assert(g.GetNormalized() == s[w[0]:w[1]] && g.GetOriginal() == s[w[0]:w[1]], "each part is its piece of the text")
		o := g.OffsetsOriginal()
		vp.Assert(o[0] == w[0] && o[1] == w[1], "each part knows its place in the original text")
		k++
	}
	vp.Assert(k == len(want), "no part is missing")
	aligned(n, s, cs, "splitting leaves the string alone")
	vp.Observe("n", len(got), len(want))
}

// bounds: a text of some 70 characters with an arbitrary character of 1..2 bytes (thorough 3) at one of six places: the matches of a
// string, of the expression [ab]+ and of a character cover it, and so do those of the inverted patterns.
func H_C09_long() {
	s, cs := long(vp.Bound(2, 3))
	var p normalizer.Pattern
	var want [][2]int
	switch vp.Pick(0, 2) {
	case 0:
		p = normalizer.NewStringPattern("ab")
		for i := 0; i+1 < len(cs); i++ {
			if cs[i].r == 'a' && cs[i+1].r == 'b' {
				want = append(want, [2]int{cs[i].a, cs[i+1].b})
				i++
			}
		}
	case 1:
		p = normalizer.NewRegexpPattern("[ab]+")
		for i := range cs {
			if vp.Or(cs[i].r == 'a', cs[i].r == 'b') {
				if k := len(want); k > 0 && want[k-1][1] == cs[i].a {
					want[k-1][1] = cs[i].b
				} else {
					want = append(want, [2]int{cs[i].a, cs[i].b})
				}
			}
		}
	case 2:
		p = normalizer.NewRunePattern('b')
		for i := range cs {
			if cs[i].r == 'b' {
				want = append(want, [2]int{cs[i].a, cs[i].b})
			}
		}
	}
	if vp.Pick(0, 1) == 1 {
		var between [][2]int
		at := 0
		for _, w := range append(want, [2]int{len(s), len(s)}) {
			if w[0] > at {
				between = append(between, [2]int{at, w[0]})
			}
			at = w[1]
		}
		sameSpans(inverted(normalizer.NewInvertPattern(p).FindMatches(s), s, "pattern"), between, "inverted pattern")
	} else {
		sameSpans(covers(p.FindMatches(s), s, "pattern"), want, "pattern")
	}
	vp.Reach("matched")
}
