// Package norm holds the harnesses over NormalizedString and the normalizers.
package norm

import (
	"unicode/utf8"

	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

type NS = normalizer.NormalizedString

// ch is one character of the reference text: its rune and the byte range of the original text it stands for.
type ch struct {
	r    rune
	a, b int
}

// char is an arbitrary character of an arbitrary UTF-8 length (1..max bytes).
func char(max int) rune {
	switch vp.Pick(1, max) {
	case 1:
		return vp.Rune(0, 0x7f)
	case 2:
		return vp.Rune(0x80, 0x7ff)
	case 3:
		r := vp.Rune(0x800, 0xfffc)
		vp.Assume(r < 0xd800 || r > 0xdfff)
		return r
	}
	return vp.Rune(0x10000, 0x10ffff)
}

// text is n arbitrary characters.
func text(n, max int) (string, []ch) {
	s := ""
	var cs []ch
	for i := 0; i < n; i++ {
		r := char(max)
		p := len(s)
		s += string(r)
		cs = append(cs, ch{r, p, len(s)})
	}
	return s, cs
}

func str(cs []ch) string {
	s := ""
	for _, c := range cs {
		s += string(c.r)
	}
	return s
}

// aligned asserts that n's text is cs, that every byte of it maps to its character's original range, that every byte of
// the original maps to a range of the text, and that both maps have one entry per byte.
func aligned(n *NS, orig string, cs []ch, what string) {
	want := str(cs)
	vp.Assert(n.GetOriginal() == orig, what+": the original text is untouched")
	got := n.GetNormalized()
	vp.Assert(len(got) == len(want), what+": length of the resulting text")
	vp.Assert(got == want, what+": resulting text")
	al, ao := n.Alignments(), n.AlignmentsOriginal()
	vp.Assert(len(al) == len(want), what+": one alignment per byte of the normalized text")
	vp.Assert(len(ao) == len(orig), what+": one alignment per byte of the original text")
	p := 0
	for _, c := range cs {
		for k := 0; k < utf8.RuneLen(c.r); k++ {
			vp.Assert(len(al[p]) == 2 && al[p][0] == c.a && al[p][1] == c.b, what+": a byte maps to the original range of its character")
			p++
		}
	}
	for _, a := range ao {
		vp.Assert(len(a) == 2 && 0 <= a[0] && a[0] <= a[1] && a[1] <= len(want), what+": an original byte maps into the normalized text")
	}
	for i := 1; i < len(ao); i++ {
		vp.Assert(ao[i-1][0] <= ao[i][0] && ao[i-1][1] <= ao[i][1], what+": original bytes map in order")
	}
}

// exact asserts the map from the original: each original character maps to the span of the characters that stand for it
// (empty if none does).
func exact(n *NS, orig []ch, cs []ch, what string) {
	ao := n.AlignmentsOriginal()
	for _, o := range orig {
		lo, hi, p := -1, -1, 0
		for _, c := range cs {
			l := utf8.RuneLen(c.r)
			if c.a == o.a && c.b == o.b {
				if lo < 0 {
					lo = p
				}
				hi = p + l
			}
			p += l
		}
		for i := o.a; i < o.b; i++ {
			if lo < 0 {
				vp.Assert(ao[i][0] == ao[i][1], what+": a removed character maps to an empty range")
			} else {
				vp.Assert(ao[i][0] == lo && ao[i][1] == hi, what+": an original character maps to what stands for it")
			}
		}
	}
}

// long is a text of some 50 characters (words, spaces, controls, several scripts) with an arbitrary character of 1..max bytes at one
// of five places.
func long(max int) (string, []ch) {
	parts := []string{" The\tQuick\x00 br", "OWN fÖx, 日本", "Ça\u200b \ufffdva? ÀÉ", "語x\r\n a b ab", "ab.b  "}
	k := vp.Pick(0, len(parts))
	s := ""
	for i, p := range append(parts, "") {
		if i == k {
			s += string(char(max))
		}
		s += p
	}
	var cs []ch
	i := 0
	for _, r := range s {
		n := len(string(r))
		cs = append(cs, ch{r, i, i + n})
		i += n
	}
	return s, cs
}
