package tok

import (
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// raw is n arbitrary bytes.
func raw(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.Byte()
	}
	return string(b)
}

// decoded are the characters of a text of arbitrary bytes: a byte that is not part of a character stands for the
// replacement character.
func decoded(s string) (cs []ch) {
	for i := 0; i < len(s); {
		r, size := utf8.DecodeRuneInString(s[i:])
		cs = append(cs, ch{r, i, i + size})
		i += size
	}
	return cs
}

// aligned checks that n has the text of cs, and that every byte of it maps to the bytes of its character and back
// (cs are characters of the original text, in order, some of which may be missing).
func aligned(n *normalizer.NormalizedString, s string, cs []ch, shift int, what string) {
	vp.Assert(n.GetNormalized() == str(cs), what+": text")
	vp.Assert(n.GetOriginal() == s, what+": original")
	vp.Assert(len(n.Alignments()) == byteLen(cs) && len(n.AlignmentsOriginal()) == len(s), what+": lengths of the alignments")
	vp.Assert(n.OffsetsOriginal()[0] == shift && n.OffsetsOriginal()[1] == shift+len(s), what+": offsets of the original")
	p := 0
	for _, c := range cs {
		size := utf8.RuneLen(c.r)
		for k := p; k < p+size; k++ {
			a := n.Alignments()[k]
			vp.Assert(a[0] == c.a-shift && a[1] == c.b-shift, what+": alignment with the original")
		}
		for k := c.a; k < c.b; k++ {
			a := n.AlignmentsOriginal()[k-shift]
			vp.Assert(a[0] == p && a[1] == p+size, what+": alignment of the original")
		}
		r := n.ConvertOffset(normalizer.NewRange(p, p+size, normalizer.NormalizedTarget))
		vp.Assert(r != nil && r.Start() == c.a-shift && r.End() == c.b-shift, what+": converted range")
		q := n.ConvertOffset(normalizer.NewRange(c.a-shift, c.b-shift, normalizer.OriginalTarget))
		vp.Assert(q != nil && q.Start() == p && q.End() == p+size, what+": range converted back")
		p += size
	}
}

// bounds: every text of 0..5 bytes (thorough 0..7); cut between two characters, filtered, prefixed, lowercased.
func H_C25_normalized() {
	s := raw(vp.Pick(0, vp.Bound(5, 7)))
	cs := decoded(s)
	n := normalizer.NewNormalizedFrom(s)
	aligned(n, s, cs, 0, "normalized")
	switch vp.Pick(0, 4) {
	case 1: // filtered
		var kept []ch
		for _, c := range cs {
			if c.r != utf8.RuneError && c.r != 'x' {
				kept = append(kept, c)
			}
		}
		out := n.Filter(func(r rune) bool { return r != utf8.RuneError && r != 'x' })
		vp.Assert(out.GetNormalized() == str(kept) && len(out.Alignments()) == byteLen(kept) && len(out.AlignmentsOriginal()) == len(s), "filtered: text")
		p := 0
		for _, c := range kept {
			a := out.Alignments()[p]
			vp.Assert(a[0] == c.a && a[1] == c.b, "filtered: alignment with the original")
			p += utf8.RuneLen(c.r)
		}
	case 2: // prefixed
		if len(cs) == 0 {
			break
		}
		out := n.Prepend("_")
		vp.Assert(out.GetNormalized() == "_"+str(cs), "prefixed: text")
		a := out.Alignments()[0]
		vp.Assert(a[0] == 0 && a[1] == cs[0].b, "prefixed: alignment")
	case 3: // a slice
		if len(cs) < 2 {
			break
		}
		i := vp.Pick(0, len(cs)-1)
		j := vp.Pick(i+1, len(cs))
		p := byteLen(cs[:i])
		out := n.Slice(normalizer.NewRange(p, p+byteLen(cs[i:j]), normalizer.NormalizedTarget))
		vp.Assert(out != nil, "slice")
		aligned(out, s[cs[i].a:cs[j-1].b], cs[i:j], cs[i].a, "slice")
	case 4: // mapped
		out := n.Map(func(r rune) rune {
			if r == utf8.RuneError {
				return '?'
			}
			return r
		})
		p := 0
		for _, c := range cs {
			if c.r == utf8.RuneError {
				c.r = '?'
			}
			size := utf8.RuneLen(c.r)
			vp.Assert(out.GetNormalized()[p:p+size] == string(c.r), "mapped: text")
			a := out.Alignments()[p]
			vp.Assert(a[0] == c.a && a[1] == c.b, "mapped: alignment with the original")
			p += size
		}
		vp.Assert(p == len(out.GetNormalized()), "mapped: length")
	}
	vp.Reach("normalized")
}

// bounds: every text of 0..5 bytes (thorough 0..7); cut at digits, at characters, at a pattern; offsets in bytes and in
// characters, in the original and in the normalized text.
func H_C25_pieces() {
	s := raw(vp.Pick(0, vp.Bound(5, 7)))
	cs := decoded(s)
	p := tokenizer.NewPreTokenizedString(s)
	type piece struct{ i, j int } // characters i to j-1
	var want []piece
	cut := func(at func(r rune) bool) {
		start := 0
		for i, c := range cs {
			if at(c.r) {
				if start < i {
					want = append(want, piece{start, i})
				}
				want = append(want, piece{i, i + 1})
				start = i + 1
			}
		}
		if start < len(cs) {
			want = append(want, piece{start, len(cs)})
		}
	}
	var err error
	switch vp.Pick(0, 2) {
	case 0:
		p, err = pretokenizer.NewSplit(normalizer.NewFnPattern(func(r rune) bool { return r >= '0' && r <= '9' }), normalizer.IsolatedBehavior, false).PreTokenize(p)
		cut(func(r rune) bool { return r >= '0' && r <= '9' })
	case 1:
		p, err = pretokenizer.NewSplit(normalizer.NewRunePattern(utf8.RuneError), normalizer.IsolatedBehavior, false).PreTokenize(p)
		cut(func(r rune) bool { return r == utf8.RuneError })
	case 2:
		p, err = pretokenizer.NewSplit(normalizer.NewStringPattern("0"), normalizer.IsolatedBehavior, vp.Pick(0, 1) == 1).PreTokenize(p)
		cut(func(r rune) bool { return r == '0' })
	}
	vp.Assert(err == nil, "pieces: no error")
	for _, ot := range []tokenizer.OffsetType{tokenizer.Byte, tokenizer.Char} {
		got := p.GetSplits(normalizer.OriginalTarget, ot)
		vp.Assert(len(got) == len(want), "pieces: number")
		for k, w := range want {
			vp.Assert(got[k].Value == str(cs[w.i:w.j]), "pieces: text")
			a, b := cs[w.i].a, cs[w.j-1].b
			if ot == tokenizer.Char {
				a, b = w.i, w.j
			}
			vp.Assert(got[k].Offsets[0] == a && got[k].Offsets[1] == b, "pieces: offsets in the original")
		}
	}
	n := 0
	for k, g := range p.GetSplits(normalizer.NormalizedTarget, tokenizer.Byte) {
		size := byteLen(cs[want[k].i:want[k].j])
		vp.Assert(g.Offsets[0] == n && g.Offsets[1] == n+size, "pieces: offsets in the normalized text")
		n += size
	}
	vp.Reach("pieces")
}

// bounds: every single text of 0..4 bytes (thorough 0..5), every pair of 0..2 and 0..2 bytes, every pre-tokenized
// input of two words of 0..2 bytes; with and without a normalizer and a pre-tokenizer; byte and character offsets.
func H_C25_encode() {
	tk := tokenizer.NewTokenizer(&bigModel{model{vocab: map[string]int{"a": 0}}})
	norm, cut := vp.Pick(0, 1) == 1, vp.Pick(0, 1) == 1
	if norm {
		tk.WithNormalizer(drop{})
	}
	if cut {
		tk.WithPreTokenizer(spaces{})
	}
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("#", false, tokenizer.WithNormalized(false))})

	var texts []string
	var input tokenizer.EncodeInput
	kind := vp.Pick(0, 2)
	switch kind {
	case 0:
		texts = []string{raw(vp.Pick(0, vp.Bound(4, 5)))}
		input = tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(texts[0]))
	case 1:
		texts = []string{raw(vp.Pick(0, 2)), raw(vp.Pick(0, 2))}
		input = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(texts[0]), tokenizer.NewInputSequence(texts[1]))
	case 2:
		texts = []string{raw(vp.Pick(0, 2)), raw(vp.Pick(0, 2))}
		input = tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(texts))
	}
	charOff := vp.Pick(0, 1) == 1
	var want []etok
	for t, s := range texts {
		cs := decoded(s)
		for _, e := range encoded(str(cs), norm, cut) {
			// the reference is for the text with replacement characters: back to the offsets in s
			i := charIdx(str(cs), e.a)
			e.a, e.b = cs[i].a, cs[i].b
			if charOff {
				e.a, e.b = i, i+1
			}
			if kind == 2 {
				e.w = t
			}
			want = append(want, e)
		}
	}
	var en *tokenizer.Encoding
	var err error
	if charOff {
		en, err = tk.EncodeCharOffsets(input, false)
	} else {
		en, err = tk.Encode(input, false)
	}
	vp.Assert(err == nil, "encode: no error")
	vp.Assert(vp.And(len(en.Ids) == len(want), len(en.Offsets) == len(want), len(en.Words) == len(want), len(en.Tokens) == len(want)), "encode: number of tokens")
	for i, e := range want {
		vp.Assert(en.Ids[i] == e.id && en.Tokens[i] == e.v, "encode: tokens in order")
		vp.Assert(en.Offsets[i][0] == e.a && en.Offsets[i][1] == e.b, "encode: offsets in the input")
		vp.Assert(en.Words[i] == e.w, "encode: word index")
	}
	vp.Reach("encode")
}

// bounds: every text of 0..3 bytes (thorough 0..4), with a normalizer
// (lowercase, strip, replace) and a pre-tokenizer (byte-level with 0..2 bytes of six (thorough 0..3), metaspace,
// whitespace):
// the same tokens as for the text with replacement characters, with the offsets of their bytes.
func H_C25_parts() {
	build := func(n, p int) *tokenizer.Tokenizer {
		tk := tokenizer.NewTokenizer(&bigModel{model{vocab: map[string]int{"a": 0}}})
		switch n {
		case 1:
			tk.WithNormalizer(normalizer.Lowercase())
		case 2:
			tk.WithNormalizer(normalizer.NewStrip(true, true))
		case 3:
			tk.WithNormalizer(normalizer.NewReplace(normalizer.String, "b", "cd"))
		}
		switch p {
		case 1:
			tk.WithPreTokenizer(pretokenizer.NewByteLevel())
		case 2:
			tk.WithPreTokenizer(pretokenizer.NewMetaspace("_", true))
		case 3:
			tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
		}
		return tk
	}
	n, q := vp.Pick(0, 3), vp.Pick(0, 3)
	var s string
	if q == 1 {
		vp.Assume(n == 0)
		s = over(vp.Pick(0, vp.Bound(2, 3)), "a", " ", "\xff", "\xc3", "\xa9", "\xf0")
	} else {
		s = raw(vp.Pick(0, vp.Bound(3, 4)))
	}
	cs := decoded(s)
	got, err := build(n, q).EncodeSingle(s)
	vp.Assert(err == nil, "parts: no error")
	want, err := build(n, q).EncodeSingle(str(cs))
	vp.Assert(err == nil, "parts: no error for a valid text")
	vp.Assert(vp.And(len(got.Ids) == len(want.Ids), len(got.Offsets) == len(want.Ids), len(got.Words) == len(want.Ids), len(got.Tokens) == len(want.Ids)), "parts: number of tokens")
	back := func(p int) int { // from the valid text to s
		for _, c := range cs {
			if p <= 0 {
				return c.a
			}
			p -= utf8.RuneLen(c.r)
		}
		return len(s)
	}
	for i := range want.Ids {
		vp.Assert(vp.And(got.Ids[i] == want.Ids[i], got.Tokens[i] == want.Tokens[i], got.Words[i] == want.Words[i]), "parts: the tokens of the valid text")
		vp.Assert(got.Offsets[i][0] == back(want.Offsets[i][0]) && got.Offsets[i][1] == back(want.Offsets[i][1]), "parts: offsets of the bytes")
	}
	vp.Reach("parts")
}
