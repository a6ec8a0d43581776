package pretok

import (
	"unicode"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// words is the reference of Whitespace: runs of word characters, runs of other characters, no whitespace.
func words(cs []ch) (want [][]ch) {
	last := 0
	for _, c := range cs {
		class := 2
		if asciiSpace(c.r) {
			class = 0
		} else if asciiWord(c.r) {
			class = 1
		}
		if class != 0 {
			if class == last {
				want[len(want)-1] = append(want[len(want)-1], c)
			} else {
				want = append(want, []ch{c})
			}
		}
		last = class
	}
	return want
}

func wsRemoved(cs []ch) [][]ch {
	return pieces(perChar(cs, func(r rune) bool { return vp.Or(r == ' ', r == '\t', r == '\n', r == '\r') }), normalizer.RemovedBehavior)
}

// bounds: texts of 0..4 arbitrary characters of 1..2 bytes (thorough 0..5 of 1..3).
func H_C18_whitespace() {
	s, cs := text(vp.Pick(0, vp.Bound(4, 5)), vp.Bound(2, 3))
	if vp.Pick(0, 1) == 0 {
		same(cut(pretokenizer.NewWhitespace(), s), words(cs), "whitespace")
	} else {
		same(cut(pretokenizer.NewWhitespaceSplit(), s), wsRemoved(cs), "whitespace split")
	}
}

// bounds: texts of 0..4 arbitrary characters of 1..2 bytes (thorough 0..4 of 1..4) and an arbitrary delimiter.
func H_C18_delimiter() {
	s, cs := text(vp.Pick(0, 4), vp.Bound(2, 4))
	d := char(vp.Bound(2, 4))
	same(cut(pretokenizer.NewCharDelimiterSplit(d), s), pieces(perChar(cs, func(r rune) bool { return r == d }), normalizer.RemovedBehavior), "delimiter")
}

// bounds: texts of 0..2 arbitrary characters of 1..3 bytes or 3 of 1..2 (thorough 3 of 1..3), all behaviours.
func H_C18_punctuation() {
	n, max := vp.Pick(0, 3), 3
	if n > 2 {
		max = vp.Bound(2, 3)
	}
	s, cs := text(n, max)
	beh := normalizer.SplitDelimiterBehavior(vp.Pick(normalizer.RemovedBehavior, normalizer.ContiguousBehavior))
	p := pretokenizer.NewPunctuation(beh)
	if beh == normalizer.IsolatedBehavior {
		p = pretokenizer.DefaultPunctuation()
	}
	same(cut(p, s), pieces(perChar(cs, punct), beh), "punctuation")
}

// bounds: texts of 0..3 arbitrary characters of 1..3 bytes (thorough 0..4), digits together or alone.
func H_C18_digits() {
	s, cs := text(vp.Pick(0, vp.Bound(3, 4)), 3)
	one := vp.Pick(0, 1) == 1
	var beh normalizer.SplitDelimiterBehavior = normalizer.ContiguousBehavior
	if one {
		beh = normalizer.IsolatedBehavior
	}
	same(cut(pretokenizer.NewDigits(one), s), pieces(perChar(cs, unicode.IsNumber), beh), "digits")
}

func bertPieces(cs []ch) (want [][]ch) {
	for _, w := range pieces(perChar(cs, asciiSpace), normalizer.RemovedBehavior) {
		want = append(want, pieces(perChar(w, punct), normalizer.IsolatedBehavior)...)
	}
	return want
}

// bounds: texts of 0..3 arbitrary characters of 1..3 bytes (thorough 0..4).
func H_C18_bert() {
	s, cs := text(vp.Pick(0, vp.Bound(3, 4)), 3)
	same(cut(pretokenizer.NewBertPreTokenizer(), s), bertPieces(cs), "bert")
}

// bounds: texts of 0..4 characters (thorough 0..6) of a, b, c, 'é'; the string "ab", the expression b+, single characters;
// inverted or not; all behaviours.
func H_C18_split() {
	s := over(vp.Pick(0, vp.Bound(4, 6)), "a", "b", "é")
	cs := chars(s)
	var ps []part
	add := func(c []ch, m bool) {
		if l := len(ps) - 1; !m && l >= 0 && !ps[l].match {
			ps[l].cs = append(ps[l].cs, c...)
		} else {
			ps = append(ps, part{append([]ch(nil), c...), m})
		}
	}
	var pat normalizer.Pattern
	switch vp.Pick(0, 2) {
	case 0:
		pat = normalizer.NewStringPattern("ab")
		for i := 0; i < len(cs); i++ {
			if cs[i].r == 'a' && i+1 < len(cs) && cs[i+1].r == 'b' {
				add(cs[i:i+2], true)
				i++
			} else {
				add(cs[i:i+1], false)
			}
		}
	case 1:
		pat = normalizer.NewRegexpPattern("b+")
		for i := 0; i < len(cs); i++ {
			j := i
			for j < len(cs) && cs[j].r == 'b' {
				j++
			}
			if j > i {
				add(cs[i:j], true)
				i = j - 1
			} else {
				add(cs[i:i+1], false)
			}
		}
	case 2:
		pat = normalizer.NewRunePattern('b')
		ps = perChar(cs, func(r rune) bool { return r == 'b' })
	}
	inv := vp.Pick(0, 1) == 1
	if inv {
		for i := range ps {
			ps[i].match = !ps[i].match
		}
	}
	beh := normalizer.SplitDelimiterBehavior(vp.Pick(normalizer.RemovedBehavior, normalizer.ContiguousBehavior))
	same(cut(pretokenizer.NewSplit(pat, beh, inv), s), pieces(ps, beh), "split")
}

// bounds: texts of 0..3 arbitrary characters of 1..2 bytes (thorough 0..4 of 1..3); two or three pre-tokenizers in sequence.
func H_C18_sequence() {
	s, cs := text(vp.Pick(0, vp.Bound(3, 4)), vp.Bound(2, 3))
	var seq []tokenizer.PreTokenizer
	want := [][]ch{cs}
	if len(cs) == 0 {
		want = nil
	}
	step := func(p tokenizer.PreTokenizer, f func([]ch) [][]ch) {
		seq = append(seq, p)
		var next [][]ch
		for _, w := range want {
			next = append(next, f(w)...)
		}
		want = next
	}
	for i := 0; i < 2; i++ {
		switch vp.Pick(0, 3) {
		case 0:
			step(pretokenizer.NewWhitespaceSplit(), wsRemoved)
		case 1:
			step(pretokenizer.DefaultDigits(), func(c []ch) [][]ch { return pieces(perChar(c, unicode.IsNumber), normalizer.ContiguousBehavior) })
		case 2:
			step(pretokenizer.DefaultPunctuation(), func(c []ch) [][]ch { return pieces(perChar(c, punct), normalizer.IsolatedBehavior) })
		case 3:
			step(pretokenizer.NewCharDelimiterSplit('-'), func(c []ch) [][]ch {
				return pieces(perChar(c, func(r rune) bool { return r == '-' }), normalizer.RemovedBehavior)
			})
		}
	}
	same(cut(pretokenizer.NewSequence(seq), s), want, "sequence")
}

// bounds: texts of 0..4 characters (thorough 0..5) of several scripts, unassigned characters, spaces.
func H_C18_unicode_script() {
	s := over(vp.Pick(0, vp.Bound(4, 5)), "a", "я", "漢", "あ", "ー", "1", " ", "\u0378")
	script := map[rune]int{'a': 1, 'я': 2, '漢': 3, 'あ': 3, 'ー': 3, '1': 4, 0x378: 5}
	var want [][]ch
	last := 0
	for _, c := range chars(s) {
		k := script[c.r]
		switch {
		case len(want) == 0:
			want = append(want, []ch{c})
		case k == 0 || k == last || last == 0:
			want[len(want)-1] = append(want[len(want)-1], c)
		default:
			want = append(want, []ch{c})
		}
		if k != 0 {
			last = k
		}
	}
	for _, c := range chars(s) {
		if c.r == 0x378 { // where it goes is left open, but nothing may be lost
			got := cut(pretokenizer.NewUnicodeScript(), s).GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
			all, end := "", 0
			for _, g := range got {
				vp.Assert(g.Offsets[0] == end, "scripts: pieces follow each other")
				end = g.Offsets[1]
				all += g.Value
			}
			vp.Assert(all == s && end == len(s), "scripts: the pieces are the text")
			return
		}
	}
	same(cut(pretokenizer.DefaultUnicodeScript(), s), want, "scripts")
}

// bounds: a text of some 70 characters (words, numbers, punctuation, several scripts, spaces) with an arbitrary character of 1..2
// bytes at one of six places and one of four others at one of three (thorough six): whitespace, digits, punctuation, Bert.
func H_C18_long() {
	s, cs := long(" ", ",", "1", "é")
	switch vp.Pick(0, 4) {
	case 0:
		same(cut(pretokenizer.NewWhitespace(), s), words(cs), "whitespace")
	case 1:
		same(cut(pretokenizer.NewWhitespaceSplit(), s), wsRemoved(cs), "whitespace split")
	case 2:
		same(cut(pretokenizer.NewBertPreTokenizer(), s), bertPieces(cs), "bert")
	case 3:
		same(cut(pretokenizer.NewDigits(false), s), pieces(perChar(cs, unicode.IsNumber), normalizer.ContiguousBehavior), "digits")
	case 4:
		beh := normalizer.SplitDelimiterBehavior(vp.Pick(normalizer.RemovedBehavior, normalizer.ContiguousBehavior))
		same(cut(pretokenizer.NewPunctuation(beh), s), pieces(perChar(cs, punct), beh), "punctuation")
	}
}
