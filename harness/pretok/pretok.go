// Package pretok holds the harnesses over the pre-tokenizers and decoders.
package pretok

import (
	"unicode"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// ch is one character of the reference text and the byte range of the original text it stands for.
type ch struct {
	r    rune
	a, b int
}

func str(cs []ch) string {
	s := ""
	for _, c := range cs {
		s += string(c.r)
	}
	return s
}

// char is an arbitrary character of an arbitrary UTF-8 length (1..max bytes).
func char(max int) rune {
	switch vp.Pick(1, max) {
	case 1:
		return vp.Rune(0, 0x7f)
	case 2:
		return vp.Rune(0x80, 0x7ff)
	case 3:
		r := vp.Rune(0x800, 0xfffc)
		vp.Assume(r < 0xd800 || r > 0xdfff)
		return r
	}
	return vp.Rune(0x10000, 0x10ffff)
}

// text is n arbitrary characters of 1..max bytes.
func text(n, max int) (string, []ch) {
	s := ""
	var cs []ch
	for i := 0; i < n; i++ {
		r := char(max)
		p := len(s)
		s += string(r)
		cs = append(cs, ch{r, p, len(s)})
	}
	return s, cs
}

func chars(s string) (cs []ch) {
	for i, r := range s {
		cs = append(cs, ch{r, i, i + utf8.RuneLen(r)})
	}
	return cs
}

// over is n characters of the alphabet.
func over(n int, alphabet ...string) string {
	s := ""
	for i := 0; i < n; i++ {
		s += alphabet[vp.Pick(0, len(alphabet)-1)]
	}
	return s
}

func asciiSpace(r rune) bool {
	return vp.Or(r == ' ', r == '\t', r == '\n', r == '\f', r == '\r')
}
func asciiWord(r rune) bool {
	return vp.Or(r == '_', vp.And(r >= '0', r <= '9'), vp.And(r >= 'a', r <= 'z'), vp.And(r >= 'A', r <= 'Z'))
}
func punct(r rune) bool {
	return vp.Or(vp.And(r >= 0x21, r <= 0x2f), vp.And(r >= 0x3a, r <= 0x40), vp.And(r >= 0x5b, r <= 0x60), vp.And(r >= 0x7b, r <= 0x7e), unicode.Is(unicode.P, r))
}

// part is a run of characters that does or does not match.
type part struct {
	cs    []ch
	match bool
}

// perChar is the parts of a pattern that matches single characters.
func perChar(cs []ch, f func(rune) bool) (ps []part) {
	for _, c := range cs {
		m := f(c.r)
		if !m && len(ps) > 0 && !ps[len(ps)-1].match {
			ps[len(ps)-1].cs = append(ps[len(ps)-1].cs, c)
		} else {
			ps = append(ps, part{[]ch{c}, m})
		}
	}
	return ps
}

// pieces is what a behaviour makes of the parts.
func pieces(ps []part, beh normalizer.SplitDelimiterBehavior) (want [][]ch) {
	join := func(p part) {
		l := len(want) - 1
		want[l] = append(want[l][:len(want[l]):len(want[l])], p.cs...)
	}
	for i, p := range ps {
		switch {
		case beh == normalizer.RemovedBehavior && p.match:
		case beh == normalizer.MergedWithPreviousBehavior && p.match && i > 0 && !ps[i-1].match,
			beh == normalizer.MergedWithNextBehavior && !p.match && i > 0 && ps[i-1].match,
			beh == normalizer.ContiguousBehavior && i > 0 && p.match == ps[i-1].match:
			join(p)
		default:
			want = append(want, p.cs)
		}
	}
	return want
}

// cut runs the pre-tokenizer on s.
func cut(p tokenizer.PreTokenizer, s string) *tokenizer.PreTokenizedString {
	out, err := p.PreTokenize(tokenizer.NewPreTokenizedString(s))
	vp.Assert(err == nil, "pre-tokenizing: no error")
	return out
}

// same asserts that the pieces are want, each with the offsets of its characters.
func same(p *tokenizer.PreTokenizedString, want [][]ch, what string) {
	got := p.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	vp.Assert(len(got) == len(want), what+": number of pieces")
	for i, g := range got {
		w := want[i]
		vp.Assert(g.Value == str(w), what+": text of a piece")
		vp.Assert(g.Offsets[0] == w[0].a && g.Offsets[1] == w[len(w)-1].b, what+": offsets of a piece")
		vp.Assert(g.Tokens == nil, what+": pieces have no tokens yet")
	}
	vp.Reach("pieces")
}

// long is a text of some dozens of words, numbers, punctuation and spaces with two arbitrary characters, one of them of the
// alphabet, somewhere in it.
func long(alphabet ...string) (string, []ch) {
	parts := []string{"the  quick 12 br", "wn-fox, é日本", "'s 3.14\t\tit's (a) ", "x", "  we'll see...\n\nзима 2024"}
	k, l := vp.Pick(0, len(parts)), vp.Pick(0, vp.Bound(2, len(parts)))
	s := ""
	for i, p := range append(parts, "") {
		if i == l {
			s += alphabet[vp.Pick(0, len(alphabet)-1)]
		}
		if i == k {
			s += string(char(2))
		}
		s += p
	}
	return s, chars(s)
}
