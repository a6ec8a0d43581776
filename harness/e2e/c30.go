// Package e2e holds the harnesses over tokenizers assembled of the components of the packages.
package e2e

import (
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/util"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// over is n texts of the alphabet.
func over(n int, alphabet ...string) string {
	s := ""
	for i := 0; i < n; i++ {
		s += alphabet[vp.Pick(0, len(alphabet)-1)]
	}
	return s
}

// char is an arbitrary character of 1..max bytes.
func char(max int) rune {
	switch vp.Pick(1, max) {
	case 1:
		return vp.Rune(0, 0x7f)
	case 2:
		return vp.Rune(0x80, 0x7ff)
	case 3:
		r := vp.Rune(0x800, 0xfffc)
		vp.Assume(r < 0xd800 || r > 0xdfff)
		return r
	}
	return vp.Rune(0x10000, 0x10ffff)
}

// gpt is a tokenizer of the GPT-2 kind: every byte has a token, and there are some merges.
func gpt(prefix, trim bool) *tokenizer.Tokenizer {
	vocab := map[string]int{}
	for b := 0; b < 256; b++ {
		vocab[pretokenizer.BytesChar[byte(b)]] = b
	}
	merges := bpe.Merges{}
	for i, m := range [][2]string{{"a", "b"}, {"Ġ", "ab"}, {"Ã", "©"}, {"Ġ", "Ã©"}, {"ab", "a"}, {"Ġ", "Ġ"}} {
		a, b, id := vocab[m[0]], vocab[m[1]], 256+i
		vocab[m[0]+m[1]] = id
		merges[bpe.Pair{C1: a, C2: b}] = bpe.PairVal{Rank: i, NewId: id}
	}
	bb := bpe.NewBpeBuilder()
	bb.VocabAndMerges(vocab, merges)
	m, err := bb.Build()
	vp.Assert(err == nil, "builds")
	tk := tokenizer.NewTokenizer(m)
	bl := pretokenizer.NewByteLevel()
	bl.SetAddPrefixSpace(prefix)
	bl.SetTrimOffsets(trim)
	tk.WithPreTokenizer(bl)
	tk.WithDecoder(bl)
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<s>", true), tokenizer.NewAddedToken("</s>", true)})
	cls, _ := tk.TokenToId("<s>")
	sep, _ := tk.TokenToId("</s>")
	vp.Assert(cls == 262 && sep == 263, "ids of the special tokens")
	tk.WithPostProcessor(processor.NewRobertaProcessing(processor.PostToken{Value: "</s>", Id: sep}, processor.PostToken{Value: "<s>", Id: cls}, trim, prefix))
	return tk
}

// llama is a tokenizer of the SentencePiece kind: spaces are the character ▁, which is put before the text as well, and
// characters without a token are tokens of bytes.
func llama(scheme pretokenizer.PrependScheme) *tokenizer.Tokenizer {
	vocab := []unigram.TokenScore{{Token: "<unk>", Score: 0}, {Token: "▁", Score: -3}, {Token: "a", Score: -3}, {Token: "b", Score: -4}, {Token: "ab", Score: -5}, {Token: "▁a", Score: -5}, {Token: "▁ab", Score: -9}}
	for b := 0; b < 256; b++ {
		const hex = "0123456789ABCDEF"
		vocab = append(vocab, unigram.TokenScore{Token: "<0x" + string(hex[b/16]) + string(hex[b%16]) + ">", Score: -20})
	}
	m, err := unigram.NewUnigramBuilder().Vocab(vocab).UnkID(0).BytesFallback(true).Build()
	vp.Assert(err == nil, "builds")
	tk := tokenizer.NewTokenizer(m)
	ms := pretokenizer.NewMetaspaceWithScheme("▁", scheme)
	tk.WithPreTokenizer(ms)
	tk.WithDecoder(decoder.NewSequence([]tokenizer.Decoder{decoder.NewByteFallback(), decoder.NewFuse(), replace{normalizer.NewReplace(normalizer.String, "▁", " ")}}))
	return tk
}

// replace makes a decoder of the Replace of the package.
type replace struct{ *normalizer.Replace }

// lossless asserts that the encoding of s gives back want.
func lossless(tk *tokenizer.Tokenizer, s, want string, special, tokens bool) *tokenizer.Encoding {
	e, err := tk.EncodeSingle(s, special)
	vp.Assert(err == nil, "every text can be encoded")
	n := len(e.Ids)
	vp.Assert(len(e.Tokens) == n && len(e.Offsets) == n && len(e.SpecialTokenMask) == n && len(e.AttentionMask) == n && len(e.TypeIds) == n && len(e.Words) == n, "one entry per token in every list")
	for i, id := range e.Ids {
		if tokens {
			tok, ok := tk.IdToToken(id)
			vp.Assert(ok && tok == e.Tokens[i], "the token of an id")
		}
		vp.Assert(0 <= e.Offsets[i][0] && e.Offsets[i][0] <= e.Offsets[i][1] && e.Offsets[i][1] <= len(s), "offsets are in the text")
	}
	vp.Assert(tk.Decode(e.Ids, true) == want, "decoding an encoded text gives the text")
	vp.Reach("encoded")
	return e
}

// cover asserts that the offsets of the tokens go through the whole text.
func cover(e *tokenizer.Encoding, s string) {
	at := 0
	for i, o := range e.Offsets {
		if e.SpecialTokenMask[i] != 0 {
			continue
		}
		vp.Assert(o[0] <= at && at <= o[1], "the offsets of the tokens leave no gap")
		at = o[1]
	}
	vp.Assert(at == len(s), "the offsets of the tokens reach the end")
}

// bounds: GPT-2 kind (all bytes, six merges, Roberta post-processor); texts of 0..2 arbitrary characters of 1..2 bytes (thorough 0..3
// of 1..3 bytes), prefix space or not, offsets trimmed or not.
func H_C30_bytes() {
	s := ""
	for n := vp.Pick(0, vp.Bound(2, 3)); n > 0; n-- {
		s += string(char(vp.Bound(2, 3)))
	}
	prefix, trim := false, false
	switch vp.Pick(0, 2) {
	case 1:
		prefix, trim = true, true
	case 2:
		trim = true
	}
	tk := gpt(prefix, trim)
	want := s
	if prefix && len(s) > 0 && s[0] != ' ' {
		want = " " + s
	}
	e := lossless(tk, s, want, true, true)
	if !trim {
		cover(e, s)
	}
}

// bounds: as H_C30_bytes; texts of 0..3 parts (thorough 5) of which some are merged: "a", "b", "é", a space and the text of a special token.
func H_C30_merged() {
	n := vp.Pick(0, vp.Bound(3, 5))
	s := ""
	want := ""
	prefix := vp.Pick(0, 1) == 1
	begin := true // of the text or behind a special token
	for i := 0; i < n; i++ {
		p := []string{"a", "b", "é", " ", "<s>"}[vp.Pick(0, 4)]
		s += p
		if p == "<s>" {
			begin = true
			continue
		}
		if begin && prefix && p != " " {
			want += " "
		}
		begin = false
		want += p
	}
	e := lossless(gpt(prefix, false), s, want, false, true)
	at := 0
	for _, o := range e.Offsets {
		vp.Assert(o[0] <= at && at <= o[1], "the offsets of the tokens leave no gap")
		at = o[1]
	}
	vp.Assert(at == len(s), "the offsets of the tokens reach the end")
}

// bounds: SentencePiece kind (Metaspace, Unigram of seven tokens and all bytes, every scheme of prefixes); texts of 0..1 (thorough 2) parts "a", "ab"
// or a space, and in front, in the middle or at the end a character U+0000..U+00FF other than whitespace that is no space.
func H_C30_pieces() {
	n := vp.Pick(0, vp.Bound(1, 2))
	at := vp.Pick(-1, n)
	s := ""
	for i := 0; i <= n; i++ {
		if i == at {
			r := vp.Rune(0, 0xff)
			vp.Assume(vp.Or(r < 9, r > 13))
			s += string(r)
		}
		if i < n {
			s += []string{"a", "ab", " "}[vp.Pick(0, 2)]
		}
	}
	scheme := []pretokenizer.PrependScheme{pretokenizer.Never, pretokenizer.First, pretokenizer.Always}[vp.Pick(0, 2)]
	want := s
	if scheme != pretokenizer.Never && len(s) > 0 && s[0] != ' ' {
		want = " " + s
	}
	cover(lossless(llama(scheme), s, want, false, false), s)
}

// ch is a character after normalization and where it comes from.
type ch struct {
	r    rune
	a, b int
}

// tok is a token that the reference expects.
type tok struct {
	v          string
	a, b, word int
}

var pieces = map[string]int{"[UNK]": 0, "[CLS]": 1, "[SEP]": 2, "a": 3, "##a": 4, "b": 5, "##b": 6, "ab": 7, "##ab": 8, ",": 9, "中": 10, "e": 11, "aba": 12}

// bertRef is the reference of BERT: characters without a meaning are removed, whitespace and punctuation separate words, letters
// are lower case without accents, and every word is cut into the longest pieces there are, from left to right.
func bertRef(s string) (toks []tok) {
	var words [][]ch
	open := false
	add := func(c ch, alone bool) {
		if alone || !open {
			words = append(words, nil)
		}
		words[len(words)-1] = append(words[len(words)-1], c)
		open = !alone
	}
	for i, r := range s {
		a, b := i, i+utf8.RuneLen(r)
		switch {
		case r == ' ', r == '\t', r == '\n', r == '\r':
			open = false
		case r < 0x20, r == 0x7f:
		case r == '中':
			add(ch{r, a, b}, true)
		case r == 'É', r == 'é':
			add(ch{'e', a, b}, false)
		case r == 0x301:
		case r >= 'A' && r <= 'Z':
			add(ch{r + 32, a, b}, false)
		case r >= 'a' && r <= 'z', r >= '0' && r <= '9':
			add(ch{r, a, b}, false)
		default: // the rest of ASCII
			add(ch{r, a, b}, true)
		}
	}
	for k, w := range words {
		var out []tok
		bad := false
		for at := 0; at < len(w) && !bad; {
			end := len(w)
			for ; end > at; end-- {
				v := ""
				if at > 0 {
					v = "##"
				}
				for _, c := range w[at:end] {
					v += string(c.r)
				}
				if _, ok := pieces[v]; ok {
					out = append(out, tok{v, w[at].a, w[end-1].b, k})
					break
				}
			}
			bad = end == at
			at = end
		}
		if bad {
			out = []tok{{"[UNK]", w[0].a, w[len(w)-1].b, k}}
		}
		toks = append(toks, out...)
	}
	return toks
}

func bert() *tokenizer.Tokenizer {
	m, err := wordpiece.New(pieces, util.NewParams(map[string]interface{}{"unk_token": "[UNK]"}))
	vp.Assert(err == nil, "builds")
	tk := tokenizer.NewTokenizer(m)
	tk.WithNormalizer(normalizer.NewBertNormalizer(true, true, true, true))
	tk.WithPreTokenizer(pretokenizer.NewBertPreTokenizer())
	tk.WithPostProcessor(processor.NewBertProcessing(processor.PostToken{Value: "[SEP]", Id: 2}, processor.PostToken{Value: "[CLS]", Id: 1}))
	tk.WithDecoder(decoder.NewWordPieceDecoder("##", false))
	return tk
}

// expect asserts that e has the tokens from entry i on.
func expect(e *tokenizer.Encoding, i int, want []tok, typeId int) int {
	for _, t := range want {
		vp.Assert(e.Tokens[i] == t.v && e.Ids[i] == pieces[t.v], "the tokens of the words of the text")
		vp.Assert(e.Offsets[i][0] == t.a && e.Offsets[i][1] == t.b, "the offsets of a token are those of its characters")
		vp.Assert(e.Words[i] == t.word && e.TypeIds[i] == typeId && e.SpecialTokenMask[i] == 0 && e.AttentionMask[i] == 1, "word, type and masks of a token")
		i++
	}
	return i
}

func special(e *tokenizer.Encoding, i int, v string, typeId int) int {
	vp.Assert(e.Tokens[i] == v && e.Ids[i] == pieces[v] && e.SpecialTokenMask[i] == 1 && e.AttentionMask[i] == 1 && e.TypeIds[i] == typeId && e.Words[i] == -1, "a special token")
	return i + 1
}

// some is a text of n arbitrary ASCII characters, one of which may be one of the others.
func some(n int) string {
	s := ""
	at := vp.Pick(-1, n-1)
	for i := 0; i < n; i++ {
		if i == at {
			s += []string{"中", "É", "é", "e\u0301"}[vp.Pick(0, 3)]
		} else {
			s += string(vp.Rune(0, 0x7f))
		}
	}
	return s
}

// bounds: BERT kind (all options of the normalizer, WordPiece of 13 tokens); texts of 0..2 (thorough 3) characters, arbitrary ASCII ones and one of
// "中", "É", "é", "e" with an accent of its own, behind nothing, "ab" or "é".
func H_C30_bert() {
	s := []string{"", "ab", "é"}[vp.Pick(0, 2)] + some(vp.Pick(0, vp.Bound(2, 3)))
	want := bertRef(s)
	e, err := bert().EncodeSingle(s, true)
	vp.Assert(err == nil, "every text can be encoded")
	vp.Assert(len(e.Ids) == len(want)+2 && len(e.Tokens) == len(want)+2, "the number of tokens")
	i := special(e, 0, "[CLS]", 0)
	i = expect(e, i, want, 0)
	special(e, i, "[SEP]", 0)
	vp.Reach("encoded")
}

// bounds: BERT kind; texts of 0..3 (thorough 4) letters, each with a space behind it or not, after a prefix that is one of the longer pieces or not.
func H_C30_bert_words() {
	s := []string{"", "aba", "a\x01b", "AB", "b a"}[vp.Pick(0, 4)]
	for n := vp.Pick(0, vp.Bound(3, 4)); n > 0; n-- {
		c := vp.ByteIn('A', 'b')
		vp.Assume(vp.Or(c == 'A', c == 'B', c == 'a', c == 'b'))
		s += string([]byte{c})
		if vp.Pick(0, 1) == 0 {
			s += " "
		}
	}
	want := bertRef(s)
	e, err := bert().EncodeSingle(s, false)
	vp.Assert(err == nil, "every text can be encoded")
	vp.Assert(len(e.Ids) == len(want) && len(e.Tokens) == len(want), "the number of tokens")
	expect(e, 0, want, 0)
	vp.Reach("encoded")
}

// bounds: BERT kind; pairs of texts of 0..1 (thorough 2 and 1) arbitrary ASCII characters.
func H_C30_bert_pair() {
	s, p := vp.ASCII(vp.Pick(0, vp.Bound(1, 2)), 0, 0x7f), vp.ASCII(vp.Pick(0, 1), 0, 0x7f)
	want, pair := bertRef(s), bertRef(p)
	e, err := bert().EncodePair(s, p, true)
	vp.Assert(err == nil, "every pair can be encoded")
	vp.Assert(len(e.Ids) == len(want)+len(pair)+3, "the number of tokens")
	i := special(e, 0, "[CLS]", 0)
	i = expect(e, i, want, 0)
	i = special(e, i, "[SEP]", 0)
	i = expect(e, i, pair, 1)
	special(e, i, "[SEP]", 1)
	vp.Reach("encoded")
}

// kind is one of the tokenizers.
func kind() *tokenizer.Tokenizer {
	switch vp.Pick(0, 3) {
	case 0:
		return gpt(true, true)
	case 3:
		return gpt(false, false)
	case 1:
		tk := llama(pretokenizer.Always)
		b := new(processor.TemplateProcessing).Builder()
		b.NewSingle("[T] $A")
		b.NewPair("[T] $A $B:1 [T]:1")
		b.NewSpecialTokens([]tokenizer.Token{{Value: "[T]", Id: 5}})
		tk.WithPostProcessor(b.Build())
		return tk
	}
	return bert()
}

// clone is a deep copy.
func clone(e *tokenizer.Encoding) *tokenizer.Encoding {
	c := *e
	c.Ids = append([]int(nil), e.Ids...)
	c.TypeIds = append([]int(nil), e.TypeIds...)
	c.Tokens = append([]string(nil), e.Tokens...)
	c.SpecialTokenMask = append([]int(nil), e.SpecialTokenMask...)
	c.AttentionMask = append([]int(nil), e.AttentionMask...)
	c.Words = append([]int(nil), e.Words...)
	c.Offsets = nil
	for _, o := range e.Offsets {
		c.Offsets = append(c.Offsets, append([]int(nil), o...))
	}
	c.Overflowing = nil
	for i := range e.Overflowing {
		c.Overflowing = append(c.Overflowing, *clone(&e.Overflowing[i]))
	}
	return &c
}

// spoil overwrites everything.
func spoil(e *tokenizer.Encoding) {
	for i := range e.Ids {
		e.Ids[i], e.TypeIds[i], e.Tokens[i], e.SpecialTokenMask[i], e.AttentionMask[i], e.Words[i] = -7, -7, "spoilt", -7, -7, -7
		e.Offsets[i][0], e.Offsets[i][1] = -7, -7
	}
	for i := range e.Overflowing {
		spoil(&e.Overflowing[i])
	}
}

func equal(a, b *tokenizer.Encoding, what string) {
	n := len(a.Ids)
	vp.Assert(len(b.Ids) == n && len(a.Tokens) == n && len(b.Tokens) == n && len(a.Overflowing) == len(b.Overflowing), what+": number of tokens")
	for i := range a.Ids {
		vp.Assert(a.Ids[i] == b.Ids[i] && a.Tokens[i] == b.Tokens[i] && a.TypeIds[i] == b.TypeIds[i], what+": tokens")
		vp.Assert(a.Offsets[i][0] == b.Offsets[i][0] && a.Offsets[i][1] == b.Offsets[i][1] && a.Words[i] == b.Words[i], what+": offsets and words")
		vp.Assert(a.SpecialTokenMask[i] == b.SpecialTokenMask[i] && a.AttentionMask[i] == b.AttentionMask[i], what+": masks")
	}
	for i := range a.Overflowing {
		equal(&a.Overflowing[i], &b.Overflowing[i], what+" (overflowing)")
	}
}

// bounds: the three kinds (GPT-2 with and without prefix space), with truncation to 6 tokens and padding to 8 (on the left or right), or without; two texts of 0..2 (thorough 3) parts "a", "b", "é", " " and an
// arbitrary ASCII letter in the first; the first one is encoded, everything in the result is overwritten, the second is encoded, then the first again.
func H_C30_repeat() {
	x := over(vp.Pick(0, vp.Bound(1, 2)), "a", "é", " ") + string([]byte{vp.ByteIn('a', 'd')})
	y := over(vp.Pick(0, vp.Bound(1, 2)), "a", "b", " ")
	tk := kind()
	limit := vp.Pick(0, 2)
	if limit > 0 {
		tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 6, Strategy: tokenizer.LongestFirst})
		tk.WithPadding(&tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(8)), Direction: []tokenizer.PaddingDirection{tokenizer.Left, tokenizer.Right}[limit-1], PadId: 0, PadToken: "[PAD]"})
	}
	e, err := tk.EncodePair(x, y+x, true)
	vp.Assert(err == nil, "encoded")
	if limit > 0 {
		vp.Assert(len(e.Ids) == 8, "padded to the length")
	}
	first := clone(e)
	spoil(e)
	_, err = tk.EncodePair(y, x+y, true)
	vp.Assert(err == nil, "encoded")
	again, err := tk.EncodePair(x, y+x, true)
	vp.Assert(err == nil, "encoded")
	equal(again, first, "encoding a text again")
	vp.Reach("again")
}

// chars asserts that c is e with offsets in characters.
func chars(c, e *tokenizer.Encoding, s, pair string) {
	vp.Assert(len(c.Ids) == len(e.Ids), "EncodeCharOffsets: number of tokens")
	for i := range c.Ids {
		vp.Assert(c.Ids[i] == e.Ids[i] && c.Tokens[i] == e.Tokens[i] && c.Words[i] == e.Words[i] && c.TypeIds[i] == e.TypeIds[i], "EncodeCharOffsets: tokens")
		if e.SpecialTokenMask[i] == 0 {
			t := s
			if e.TypeIds[i] == 1 {
				t = pair
			}
			a, b := e.Offsets[i][0], e.Offsets[i][1]
			vp.Assert(c.Offsets[i][0] == utf8.RuneCountInString(t[:a]) && c.Offsets[i][1] == utf8.RuneCountInString(t[:b]), "EncodeCharOffsets: offsets")
		}
	}
}

// bounds: BERT kind; pairs of texts of 0..2 (thorough 3) parts "a", "中", "É" or a space: every way to encode them, byte or character offsets, alone or in a
// batch, texts or lists of two words.
func H_C30_ways_pair() {
	s, p := over(vp.Pick(0, vp.Bound(2, 3)), "a", "中", "É", " "), over(vp.Pick(0, vp.Bound(2, 3)), "a", "中", "É", " ")
	tk := bert()
	special := vp.Pick(0, 1) == 1
	in := tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(s), tokenizer.NewInputSequence(p))
	e, err := tk.Encode(in, special)
	vp.Assert(err == nil, "encoded")
	o, err := tk.EncodePair(s, p, special)
	vp.Assert(err == nil, "encoded")
	equal(o, e, "EncodePair")
	c, err := tk.EncodeCharOffsets(in, special)
	vp.Assert(err == nil, "encoded")
	chars(c, e, s, p)
	all, err := tk.EncodeBatch([]tokenizer.EncodeInput{in}, special)
	vp.Assert(err == nil && len(all) == 1, "batch of one")
	equal(&all[0], e, "EncodeBatch")
	in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence([]string{p, s}), tokenizer.NewInputSequence([]string{s, p}))
	e, err = tk.Encode(in, special)
	vp.Assert(err == nil, "encoded")
	one := [][]*tokenizer.Encoding{{nil, nil}, {nil, nil}}
	for i, t := range []string{s, p} {
		one[0][1-i], err = tk.EncodeSingle(t)
		vp.Assert(err == nil, "encoded")
		one[1][i] = one[0][1-i]
	}
	at := 0
	for k := 0; k < 2; k++ {
		if special && k == 0 {
			at++
		}
		for w := 0; w < 2; w++ {
			for i := range one[k][w].Ids {
				vp.Assert(e.Ids[at] == one[k][w].Ids[i] && e.Tokens[at] == one[k][w].Tokens[i] && e.Words[at] == w && e.TypeIds[at] == k, "lists of words: tokens")
				vp.Assert(e.Offsets[at][0] == one[k][w].Offsets[i][0] && e.Offsets[at][1] == one[k][w].Offsets[i][1], "lists of words: offsets")
				at++
			}
		}
		if special {
			at++
		}
	}
	vp.Assert(at == len(e.Ids), "lists of words: number of tokens")
	vp.Reach("encoded")
}

// bounds: SentencePiece kind with every scheme; texts of 0..3 (thorough 4) characters of which "é", "€" and "😀" are several tokens of bytes each, and
// "a", a space or a NUL.
func H_C30_fallback() {
	s := over(vp.Pick(0, vp.Bound(3, 4)), "é", "€", "😀", "a", " ", "\x00")
	scheme := []pretokenizer.PrependScheme{pretokenizer.Never, pretokenizer.First, pretokenizer.Always}[vp.Pick(0, 2)]
	want := s
	if scheme != pretokenizer.Never && len(s) > 0 && s[0] != ' ' {
		want = " " + s
	}
	cover(lossless(llama(scheme), s, want, false, true), s)
}

// bounds: BERT kind; texts of 0..3 (thorough 4) parts "a", "中", "É", "," or a space: every way to encode it, byte or character offsets, alone, in a batch,
// or as a list of one word.
func H_C30_ways() {
	s := over(vp.Pick(0, vp.Bound(3, 4)), "a", "中", "É", ",", " ")
	tk := bert()
	in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s))
	special := vp.Pick(0, 1) == 1
	e, err := tk.Encode(in, special)
	vp.Assert(err == nil, "encoded")
	o, err := tk.EncodeSingle(s, special)
	vp.Assert(err == nil, "encoded")
	equal(o, e, "EncodeSingle")
	toks, err := tk.Tokenize(s, special)
	vp.Assert(err == nil && len(toks) == len(e.Tokens), "Tokenize: number of tokens")
	for i, t := range toks {
		vp.Assert(t == e.Tokens[i], "Tokenize: tokens")
	}
	all, err := tk.EncodeBatch([]tokenizer.EncodeInput{in}, special)
	vp.Assert(err == nil && len(all) == 1, "batch of one")
	equal(&all[0], e, "EncodeBatch")
	c, err := tk.EncodeCharOffsets(in, special)
	vp.Assert(err == nil, "encoded")
	chars(c, e, s, "")
	one, err := tk.Encode(tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence([]string{s})), special)
	vp.Assert(err == nil && len(one.Ids) == len(e.Ids), "list of one word: number of tokens")
	for i := range one.Ids {
		vp.Assert(one.Ids[i] == e.Ids[i] && one.Offsets[i][0] == e.Offsets[i][0] && one.Offsets[i][1] == e.Offsets[i][1], "list of one word: tokens")
		vp.Assert(one.Words[i] == vp.IteInt(e.SpecialTokenMask[i] == 0, 0, -1), "list of one word: words")
	}
	vp.Assert(tk.DecodeBatch([][]int{e.Ids, nil}, true)[0] == tk.Decode(e.Ids, true), "DecodeBatch")
	vp.Reach("encoded")
}

// bounds: BERT kind; texts of 0..4 (thorough 6) arbitrary letters a..c, each a word or not; maximum lengths 2..5: what does not fit is in the overflowing windows.
func H_C30_limit() {
	s := ""
	for n := vp.Pick(0, vp.Bound(4, 6)); n > 0; n-- {
		s += string([]byte{vp.ByteIn('a', 'c')})
		if vp.Pick(0, 1) == 0 {
			s += " "
		}
	}
	max := vp.Pick(3, 5)
	tk := bert()
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: max, Strategy: tokenizer.LongestFirst})
	want := bertRef(s)
	e, err := tk.EncodeSingle(s, true)
	vp.Assert(err == nil, "encoded")
	parts := append([]tokenizer.Encoding{*e}, e.Overflowing...)
	for k := range parts {
		p := &parts[k]
		n := len(want)
		if n > max-2 {
			n = max - 2
		}
		vp.Assert(len(p.Ids) == n+2, "the number of tokens of a window")
		i := special(p, 0, "[CLS]", 0)
		i = expect(p, i, want[:n], 0)
		special(p, i, "[SEP]", 0)
		want = want[n:]
	}
	vp.Assert(len(want) == 0, "the windows have all tokens")
	vp.Reach("cut")
}
