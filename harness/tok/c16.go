package tok

import (
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// ch is one character of the reference text and the byte range of the original text it stands for.
type ch struct {
	r    rune
	a, b int
}

func str(cs []ch) string {
	s := ""
	for _, c := range cs {
		s += string(c.r)
	}
	return s
}

// chars of s, each standing for itself.
func chars(s string) (cs []ch) {
	for i, r := range s {
		cs = append(cs, ch{r, i, i + utf8.RuneLen(r)})
	}
	return cs
}

// charIdx is the number of characters of s before byte p (a boundary).
func charIdx(s string, p int) int { return utf8.RuneCountInString(s[:p]) }

// seg is a piece of the reference text; done: has a token of its own.
type seg struct {
	cs   []ch
	done bool
}

func byteLen(cs []ch) int { return len(str(cs)) }

// pre makes an arbitrary pre-tokenized string over an arbitrary text of 0..n characters of up to max bytes: normalized
// (characters removed, replaced by longer ones, inserted), cut into pieces in two rounds, normalized again in between;
// pieces of the first round may already have a token.
func pre(n, max int) (*tokenizer.PreTokenizedString, string, []seg) {
	orig := text(vp.Pick(0, n), max)
	cs := chars(orig)
	p := tokenizer.NewPreTokenizedString(orig)
	segs := []seg{{cs, false}}

	change := func() {
		kind := vp.Pick(0, 3)
		if kind == 0 {
			return
		}
		x := rune('x')
		ins := vp.Rune(0x80, 0x7ff)
		for i := range segs {
			if segs[i].done {
				continue
			}
			var out []ch
			for _, c := range segs[i].cs {
				switch {
				case kind == 1 && c.r == x:
				case kind == 2 && c.r == x:
					out = append(out, ch{ins, c.a, c.b})
				default:
					out = append(out, c)
				}
			}
			if kind == 3 && len(out) > 0 {
				out = append([]ch{{ins, out[0].a, out[0].b}}, out...)
			}
			segs[i].cs = out
		}
		p = p.Normalize(func(ns *normalizer.NormalizedString) *normalizer.NormalizedString {
			switch kind {
			case 1:
				return ns.Filter(func(r rune) bool { return r != x })
			case 2:
				return ns.Map(func(r rune) rune {
					if r == x {
						return ins
					}
					return r
				})
			}
			return ns.Prepend(string(ins))
		})
	}
	split := func(mayTok bool) {
		k := 0
		var out []seg
		p = p.Split(func(i int, ns *normalizer.NormalizedString) []tokenizer.SplitIdx {
			for segs[k].done {
				out = append(out, segs[k])
				k++
			}
			cur := segs[k].cs
			k++
			vp.Assert(ns.GetNormalized() == str(cur), "split: the pieces are given in order, those with tokens are skipped")
			var pieces []tokenizer.SplitIdx
			cut := func(from, to, bytes int) int {
				part := cur[from:to]
				l := byteLen(part)
				piece := ns.Slice(normalizer.NewRange(bytes, bytes+l, normalizer.NormalizedTarget))
				var toks []tokenizer.Token
				done := false
				if mayTok && l > 0 && vp.Pick(0, 1) == 1 {
					toks = []tokenizer.Token{{Id: 7, Value: str(part), Offsets: []int{0, l}}}
					done = true
				}
				pieces = append(pieces, tokenizer.SplitIdx{Normalized: piece, Tokens: toks})
				if l > 0 {
					out = append(out, seg{part, done})
				}
				return bytes + l
			}
			if len(cur) == 0 {
				return []tokenizer.SplitIdx{{Normalized: ns}}
			}
			at := vp.Pick(0, len(cur))
			b := 0
			if at > 0 {
				b = cut(0, at, 0)
			}
			if at < len(cur) {
				cut(at, len(cur), b)
			}
			return pieces
		})
		for ; k < len(segs); k++ {
			if segs[k].done {
				out = append(out, segs[k])
			}
		}
		segs = out
	}
	change()
	split(true)
	change()
	split(false)
	return p, orig, segs
}

func isBoundary(s string, p int) bool { return p == len(s) || utf8.RuneStart(s[p]) }

// bounds: texts of 0..3 characters of 1..2 bytes (thorough 0..3 of 1..3), normalized twice, cut twice, pieces with and
// without tokens; original and normalized, byte and character offsets.
func H_C16_get_splits() {
	p, orig, segs := pre(3, vp.Bound(2, 3))
	var ref normalizer.IndexOn = normalizer.OriginalTarget
	if vp.Pick(0, 1) == 1 {
		ref = normalizer.NormalizedTarget
	}
	typ := tokenizer.Byte
	if vp.Pick(0, 1) == 1 && ref == normalizer.OriginalTarget {
		typ = tokenizer.Char
	}
	got := p.GetSplits(ref, typ)
	vp.Assert(len(got) == len(segs), "splits: number of pieces")
	pos := 0
	for i, g := range got {
		s := segs[i]
		l := byteLen(s.cs)
		vp.Assert(g.Value == str(s.cs), "splits: text of a piece")
		vp.Assert((g.Tokens != nil) == s.done, "splits: tokens of a piece stay with it")
		if ref == normalizer.NormalizedTarget {
			vp.Assert(g.Offsets[0] == pos && g.Offsets[1] == pos+l, "splits: normalized offsets follow each other")
		} else {
			a, b := s.cs[0].a, s.cs[len(s.cs)-1].b
			if typ == tokenizer.Char {
				a, b = charIdx(orig, a), charIdx(orig, b)
			}
			vp.Assert(g.Offsets[0] <= a && b <= g.Offsets[1], "splits: original offsets cover the characters of the piece")
		}
		pos += l
	}
	vp.Reach("splits")
}

// bounds: as H_C16_get_splits; tokens of 1 or 2 characters or none, given or automatic word index, type ids.
func H_C16_into_encoding() {
	p, orig, segs := pre(3, vp.Bound(2, 3))
	type want struct{ id, a, b, w int }
	var ws []want
	var vals []string
	k, w := 0, 0
	size := vp.Pick(0, 2) // characters per token; 0: the model gives no token
	emit := func(cs []ch, id int) {
		ws = append(ws, want{id, cs[0].a, cs[len(cs)-1].b, w})
		vals = append(vals, str(cs))
	}
	for _, s := range segs {
		if s.done {
			emit(s.cs, 7)
		} else if size > 0 {
			for i := 0; i < len(s.cs); i += size {
				j := i + size
				if j > len(s.cs) {
					j = len(s.cs)
				}
				emit(s.cs[i:j], 9)
			}
		}
		w++
	}
	_, err := p.Tokenize(func(ns *normalizer.NormalizedString) (toks []tokenizer.Token, err error) {
		for segs[k].done {
			k++
		}
		cs := segs[k].cs
		k++
		vp.Assert(ns.GetNormalized() == str(cs), "tokenize: is given the pieces without tokens, in order")
		b := 0
		for i := 0; size > 0 && i < len(cs); i += size {
			j := i + size
			if j > len(cs) {
				j = len(cs)
			}
			l := byteLen(cs[i:j])
			toks = append(toks, tokenizer.Token{Id: 9, Value: str(cs[i:j]), Offsets: []int{b, b + l}})
			b += l
		}
		return toks, nil
	})
	vp.Assert(err == nil, "tokenize: no error")
	wordIdx := vp.Pick(0, 1)*4 - 1 // -1 or 3
	typeId := vp.Int(0, 3)
	typ := tokenizer.Byte
	if vp.Pick(0, 1) == 1 {
		typ = tokenizer.Char
	}
	en, err := p.IntoEncoding(typeId, wordIdx, typ)
	vp.Assert(err == nil, "encoding: no error")
	vp.Assert(len(en.Ids) == len(ws), "encoding: number of tokens")
	vp.Assert(vp.And(len(en.Tokens) == len(ws), len(en.Words) == len(ws), len(en.TypeIds) == len(ws), len(en.Offsets) == len(ws),
		len(en.SpecialTokenMask) == len(ws), len(en.AttentionMask) == len(ws), len(en.Overflowing) == 0), "encoding: one entry per token")
	for i, x := range ws {
		word := x.w
		if wordIdx >= 0 {
			word = wordIdx
		}
		vp.Assert(vp.And(en.Ids[i] == x.id, en.Tokens[i] == vals[i], en.TypeIds[i] == typeId, en.SpecialTokenMask[i] == 0, en.AttentionMask[i] == 1),
			"encoding: token, type id and masks")
		vp.Assert(en.Words[i] == word, "encoding: the word of a token is its piece or the given one")
		a, b := x.a, x.b
		if typ == tokenizer.Char {
			a, b = charIdx(orig, a), charIdx(orig, b)
		}
		vp.Assert(en.Offsets[i][0] == a && en.Offsets[i][1] == b, "encoding: offsets of a token are those of its characters in the original text")
	}
	vp.Reach("encoding")
}

// bounds: texts of 0..4 characters of 1..4 bytes (thorough 0..5), every pair of offsets in -1..length+1.
func H_C16_converter() {
	s := text(vp.Pick(0, vp.Bound(3, 4)), 4)
	c := tokenizer.NewBytesToCharOffsetConverter(s)
	a, b := vp.Pick(-1, len(s)+1), vp.Pick(-1, len(s)+1)
	vp.Assume(a <= b)
	got, err := c.Convert([]int{a, b})
	if a < 0 || b > len(s) || a == len(s) {
		if !(a == len(s) && b == len(s)) {
			vp.Assert(err != nil, "converter: offsets outside of the text are an error")
		}
		return
	}
	vp.Assert(err == nil, "converter: offsets of the text convert")
	if isBoundary(s, a) {
		vp.Assert(got[0] == charIdx(s, a), "converter: start")
	}
	if isBoundary(s, b) {
		vp.Assert(got[1] == charIdx(s, b), "converter: end")
	}
	vp.Assert(0 <= got[0] && got[0] <= got[1] && got[1] <= utf8.RuneCountInString(s), "converter: within the text")
	vp.Reach("converter")
}

// bounds: an arbitrary pre-tokenized string without tokens cannot become an encoding.
func H_C16_untokenized() {
	p, _, segs := pre(2, 1)
	all := true
	for _, s := range segs {
		all = all && s.done
	}
	_, err := p.IntoEncoding(0, -1, tokenizer.Byte)
	vp.Assert((err == nil) == all, "encoding: an error exactly if a piece is not tokenized")
	_, err = p.IntoEncoding(0, -1, tokenizer.OffsetType(vp.Pick(0, 3)))
	vp.Reach("untokenized")
}

// drop is a normalizer that removes every 'x'.
type drop struct{}

func (drop) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	return n.Filter(func(r rune) bool { return r != 'x' }), nil
}

// spaces is a pre-tokenizer that cuts at spaces and removes them.
type spaces struct{}

func (spaces) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	return p.Split(func(_ int, n *normalizer.NormalizedString) (o []tokenizer.SplitIdx) {
		for _, s := range n.Split(normalizer.NewFnPattern(func(r rune) bool { return r == ' ' }), normalizer.RemovedBehavior) {
			piece := s
			o = append(o, tokenizer.SplitIdx{Normalized: &piece})
		}
		return o
	}), nil
}

type etok struct {
	id, a, b, w int
	v           string
}

// encoded is the reference for one text: added token '#' first, 'x' removed, cut at spaces, one token per character.
func encoded(s string, norm, cut bool) (o []etok) {
	w := 0
	open := false // a piece of text is open
	for _, c := range chars(s) {
		switch {
		case c.r == '#':
			if open {
				w++
			}
			o = append(o, etok{1000, c.a, c.b, w, "#"})
			w++
			open = false
		case norm && c.r == 'x':
		case cut && c.r == ' ':
			if open {
				w++
			}
			open = false
		default:
			id := 100 + int(string(c.r)[0])
			if c.r == 'a' {
				id = 0
			}
			o = append(o, etok{id, c.a, c.b, w, string(c.r)})
			open = true
		}
	}
	return o
}

// bounds: single texts, pairs, and pre-tokenized inputs of 0..2 words, of 0..4 characters of 1..2 bytes each (thorough
// 0..5); with and without normalizer and pre-tokenizer, byte and character offsets; through all entry points.
func H_C16_encode() {
	m := model{vocab: map[string]int{"a": 0}}
	tk := tokenizer.NewTokenizer(&bigModel{m})
	norm, cut := vp.Pick(0, 1) == 1, vp.Pick(0, 1) == 1
	if norm {
		tk.WithNormalizer(drop{})
	}
	if cut {
		tk.WithPreTokenizer(spaces{})
	}
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("#", false, tokenizer.WithNormalized(false))})

	type in struct {
		text string
		word int // -1: raw
		typ  int
	}
	var ins []in
	max := vp.Bound(3, 4)
	var input tokenizer.EncodeInput
	kind := vp.Pick(0, 2)
	switch kind {
	case 0:
		s := text(vp.Pick(0, max+1), 2)
		ins = []in{{s, -1, 0}}
		input = tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s))
	case 1:
		s, q := text(vp.Pick(0, max), 2), text(vp.Pick(0, 1), 2)
		ins = []in{{s, -1, 0}, {q, -1, 1}}
		input = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(s), tokenizer.NewInputSequence(q))
	case 2:
		var words []string
		for i, n := 0, vp.Pick(0, 2); i < n; i++ {
			w := text(vp.Pick(0, max), 1)
			words = append(words, w)
			ins = append(ins, in{w, i, 0})
		}
		input = tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(words))
	}
	var want []etok
	var typs []int
	charOff := vp.Pick(0, 1) == 1
	for _, x := range ins {
		for _, e := range encoded(x.text, norm, cut) {
			if x.word >= 0 {
				e.w = x.word
			}
			if charOff {
				e.a, e.b = charIdx(x.text, e.a), charIdx(x.text, e.b)
			}
			want = append(want, e)
			typs = append(typs, x.typ)
		}
	}
	var en *tokenizer.Encoding
	var err error
	switch {
	case charOff:
		en, err = tk.EncodeCharOffsets(input, false)
	case kind == 0 && vp.Pick(0, 1) == 1:
		en, err = tk.EncodeSingle(ins[0].text)
	case kind == 1 && vp.Pick(0, 1) == 1:
		en, err = tk.EncodePair(ins[0].text, ins[1].text)
	default:
		en, err = tk.Encode(input, false)
	}
	vp.Assert(err == nil, "encode: no error")
	vp.Assert(vp.And(len(en.Ids) == len(want), len(en.Offsets) == len(want), len(en.Words) == len(want), len(en.TypeIds) == len(want), len(en.Tokens) == len(want)),
		"encode: number of tokens")
	for i, e := range want {
		vp.Assert(en.Ids[i] == e.id && en.Tokens[i] == e.v, "encode: tokens in order")
		vp.Assert(en.Offsets[i][0] == e.a && en.Offsets[i][1] == e.b, "encode: offsets in the input")
		vp.Assert(en.Words[i] == e.w, "encode: word index")
		vp.Assert(en.TypeIds[i] == typs[i], "encode: type id")
	}
	vp.Reach("encode")
}

// bigModel reports a vocabulary of 1000 entries, so that added tokens have ids from 1000.
type bigModel struct{ model }

func (*bigModel) GetVocabSize() int { return 1000 }

// bounds: a text of some 60 characters (words, spaces, characters that are removed, added tokens, two to four bytes), with one of
// seven characters at each of two of six places; single or in a pair, with and without normalizer and pre-tokenizer, byte and character
// offsets.
func H_C16_long() {
	tk := tokenizer.NewTokenizer(&bigModel{model{vocab: map[string]int{"a": 0}}})
	norm, cut := vp.Pick(0, 1) == 1, vp.Pick(0, 1) == 1
	if norm {
		tk.WithNormalizer(drop{})
	}
	if cut {
		tk.WithPreTokenizer(spaces{})
	}
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("#", false, tokenizer.WithNormalized(false))})
	s := ""
	k, l := vp.Pick(0, 5), vp.Pick(0, vp.Bound(2, 5))
	for i, p := range []string{"a bxc d", "é#日本 x#x  ", "efgh", "ij 😀kl m#", "xx nop qr st", ""} {
		if i == k {
			s += over(1, "x", "#", " ", "é", "日", "😀", "a")
		}
		if i == l {
			s += over(1, "x", "#", " ", "é", "日", "😀", "a")
		}
		s += p
	}
	q := "q #éx y"
	pair := vp.Pick(0, 1) == 1
	want := encoded(s, norm, cut)
	n := len(want)
	input := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s))
	if pair {
		input = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(s), tokenizer.NewInputSequence(q))
		want = append(want, encoded(q, norm, cut)...)
	}
	var en *tokenizer.Encoding
	var err error
	charOff := vp.Pick(0, 1) == 1
	if charOff {
		en, err = tk.EncodeCharOffsets(input, false)
	} else {
		en, err = tk.Encode(input, false)
	}
	vp.Assert(err == nil, "encode: no error")
	vp.Assert(len(en.Ids) == len(want), "encode: number of tokens")
	for i, e := range want {
		text, typ := s, 0
		if i >= n {
			text, typ = q, 1
		}
		if charOff {
			e.a, e.b = charIdx(text, e.a), charIdx(text, e.b)
		}
		vp.Assert(en.Ids[i] == e.id && en.Tokens[i] == e.v, "encode: tokens in order")
		vp.Assert(en.Offsets[i][0] == e.a && en.Offsets[i][1] == e.b, "encode: offsets in the input")
		vp.Assert(en.Words[i] == e.w, "encode: word index")
		vp.Assert(en.TypeIds[i] == typ, "encode: type id")
	}
	vp.Reach("encode")
}
