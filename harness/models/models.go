// Package models holds the harnesses over the tokenization models.
package models

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// over is a string of n characters drawn from alphabet.
func over(n int, alphabet ...string) string {
	s := ""
	for i := 0; i < n; i++ {
		s += alphabet[vp.Pick(0, len(alphabet)-1)]
	}
	return s
}

// letters is a string of n arbitrary bytes in [lo,hi].
func letters(n int, lo, hi byte) string { return vp.ASCII(n, lo, hi) }

// tiles asserts that the tokens' offsets cover s once, in order.
func tiles(toks []tokenizer.Token, s string, what string) {
	p := 0
	for _, t := range toks {
		vp.Assert(len(t.Offsets) == 2 && t.Offsets[0] == p && t.Offsets[1] > p, what+": offsets follow each other")
		p = t.Offsets[1]
	}
	vp.Assert(p == len(s), what+": offsets cover the word")
}

func sameToks(a, b []tokenizer.Token, what string) {
	vp.Assert(len(a) == len(b), what+": number of tokens")
	for i := range a {
		vp.Assert(vp.And(a[i].Id == b[i].Id, a[i].Value == b[i].Value), what+": tokens")
		vp.Assert(vp.And(a[i].Offsets[0] == b[i].Offsets[0], a[i].Offsets[1] == b[i].Offsets[1]), what+": offsets")
	}
}

// char is an arbitrary character of an arbitrary UTF-8 length (1..max bytes).
func char(max int) rune {
	switch vp.Pick(1, max) {
	case 1:
		return vp.Rune(0, 0x7f)
	case 2:
		return vp.Rune(0x80, 0x7ff)
	case 3:
		r := vp.Rune(0x800, 0xffff)
		vp.Assume(r < 0xd800 || r > 0xdfff)
		return r
	}
	return vp.Rune(0x10000, 0x10ffff)
}

// text is n arbitrary characters of 1..max bytes.
func text(n, max int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string(char(max))
	}
	return s
}
