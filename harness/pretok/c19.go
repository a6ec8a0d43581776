package pretok

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// byteRune is the character that stands for a byte: itself if it is printable and no space, else one from U+0100 on.
func byteRune(b byte) rune {
	n := rune(0x100)
	for x := 0; x < 256; x++ {
		plain := x >= 0x21 && x <= 0x7e || x >= 0xa1 && x <= 0xac || x >= 0xae
		if byte(x) == b {
			if plain {
				return rune(x)
			}
			return n
		}
		if !plain {
			n++
		}
	}
	panic("unreachable")
}

// bounds: all 256 bytes and all characters: the map of bytes to characters is a bijection with the characters given by its
// definition.
func H_C19_bijection() {
	vp.Assert(len(pretokenizer.BytesChar) == 256 && len(pretokenizer.CharBytes) == 256, "byte characters: one for each byte, all different")
	b := byte(vp.Pick(0, 255))
	c, ok := pretokenizer.BytesChar[b]
	vp.Assert(ok && c == string(byteRune(b)), "byte characters: the character of a byte")
	back, ok := pretokenizer.CharBytes[c]
	vp.Assert(ok && back == b, "byte characters: back to the byte")
	_, ok = pretokenizer.NewByteLevel().Alphabet()[c]
	vp.Assert(ok && len(pretokenizer.NewByteLevel().Alphabet()) == 256, "byte characters: the alphabet is all of them")
	vp.Assert(pretokenizer.NewByteLevel().Decode([]string{c}) == string([]byte{b}), "byte characters: decode to the byte")
	vp.Assert(utf8.RuneCountInString(c) == 1, "byte characters: one character")
	vp.Reach("byte")
}

// levels is the reference of the splitting: contractions, an optional space with letters, numbers or other characters,
// other whitespace.
func levels(cs []ch) (want [][]ch) {
	class := func(r rune) int {
		switch {
		case unicode.Is(unicode.L, r):
			return 1
		case unicode.Is(unicode.N, r):
			return 2
		case asciiSpace(r):
			return 0
		}
		return 3
	}
	rest := false // the last piece is unmatched whitespace
	for i := 0; i < len(cs); {
		if cs[i].r == '\'' && i+1 < len(cs) {
			n := 0
			switch cs[i+1].r {
			case 's', 't', 'm', 'd':
				n = 2
			case 'r', 'v':
				if i+2 < len(cs) && cs[i+2].r == 'e' {
					n = 3
				}
			case 'l':
				if i+2 < len(cs) && cs[i+2].r == 'l' {
					n = 3
				}
			}
			if n > 0 {
				want = append(want, cs[i:i+n])
				i += n
				rest = false
				continue
			}
		}
		j := i
		if cs[j].r == ' ' && j+1 < len(cs) && class(cs[j+1].r) != 0 {
			j++
		}
		k := class(cs[j].r)
		if k == 0 {
			if rest {
				l := len(want) - 1
				want[l] = append(want[l][:len(want[l]):len(want[l])], cs[i])
			} else {
				want = append(want, cs[i:i+1])
			}
			rest = true
			i++
			continue
		}
		rest = false
		for j < len(cs) && class(cs[j].r) == k {
			j++
		}
		want = append(want, cs[i:j])
		i = j
	}
	return want
}

// level checks the pre-tokenizer on s.
func level(s string, cs []ch) {
	bl := pretokenizer.NewByteLevel()
	bl.SetAddPrefixSpace(vp.Pick(0, 1) == 1)
	if bl.AddPrefixSpace && len(cs) > 0 && cs[0].r != ' ' {
		cs = append([]ch{{' ', cs[0].a, cs[0].b}}, cs...)
	}
	want := levels(cs)
	p := cut(bl, s)
	got := p.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	vp.Assert(len(got) == len(want), "byte level: number of pieces")
	var toks []string
	for i, g := range got {
		w := want[i]
		v := ""
		for _, c := range w {
			for _, b := range []byte(string(c.r)) {
				v += pretokenizer.BytesChar[b]
			}
		}
		vp.Assert(g.Value == v, "byte level: a piece is the byte characters of its text")
		vp.Assert(g.Offsets[0] <= w[0].a && w[len(w)-1].b <= g.Offsets[1], "byte level: offsets of a piece cover its characters")
		toks = append(toks, g.Value)
	}
	vp.Assert(bl.Decode(toks) == str(cs), "byte level: decoding the pieces gives the text")
	vp.Reach("pieces")
}

// bounds: texts of 0..4 characters (thorough 0..5) of an apostrophe, contraction letters, spaces and a digit, and contractions of
// two letters between such characters; with and without prefix space.
func H_C19_contractions() {
	var s string
	if vp.Pick(0, 1) == 0 {
		s = over(vp.Pick(0, vp.Bound(4, 5)), "'", "l", "e", " ", "1")
	} else {
		s = over(1, "'", " ", "a") + "'" + over(2, "r", "v", "e", "s", "d", "\t") + over(vp.Pick(0, 1), "e", ".", "é")
	}
	level(s, chars(s))
}

// bounds: an arbitrary character U+0000..U+00FF or U+0400..U+043F or one of some others (thorough: any of 1..2 bytes) between
// nothing, a letter or a space; with and without prefix space.
func H_C19_any_text() {
	var r rune
	switch vp.Pick(0, vp.Bound(2, 3)) {
	case 0:
		r = vp.Rune(0, 0xff)
	case 1:
		r = vp.Rune(0x400, 0x43f)
	case 2:
		r = []rune{0x2003, '中', '。', 0x2028, '٣', 0x300, 0x1f600, 0x10ffff, 0xfffd}[vp.Pick(0, 8)]
	case 3:
		r = char(2)
	}
	s := []string{"", "a", " "}[vp.Pick(0, 2)] + string(r)
	if len(s) == 2 {
		s += " "
	}
	level(s, chars(s))
}

// bounds: 0..2 tokens (thorough 0..3), each the byte characters of 0..2 bytes or a text that has other characters: decoding gives
// the bytes, other tokens as they are.
func H_C19_decode() {
	bl := pretokenizer.NewByteLevel()
	var toks, want []string
	all := ""
	for i, n := 0, vp.Pick(0, vp.Bound(2, 3)); i < n; i++ {
		var t, w string
		if vp.Pick(0, 1) == 0 {
			w = []string{"a b", "中", "é x", "Ġ "}[vp.Pick(0, 3)]
			t = w
		} else {
			for k := vp.Pick(0, 2); k > 0; k-- {
				b := []byte{0, ' ', 'a', 0x7f, 0xa0, 0xad, 0xff, 0xc3}[vp.Pick(0, 7)]
				w += string([]byte{b})
				t += pretokenizer.BytesChar[b]
			}
		}
		toks = append(toks, t)
		want = append(want, w)
		all += w
	}
	got := bl.DecodeChain(toks)
	vp.Assert(len(got) == len(want), "byte level decoding: one text per token")
	for i := range got {
		vp.Assert(got[i] == want[i], "byte level decoding: the bytes of a token")
	}
	vp.Assert(bl.Decode(toks) == all, "byte level decoding: the bytes of the tokens")
	vp.Reach("decoded")
}

// pieceModel makes every piece a token.
type pieceModel struct{}

func (pieceModel) Tokenize(s string) ([]tokenizer.Token, error) {
	return []tokenizer.Token{{Id: len(s), Value: s, Offsets: []int{0, len(s)}}}, nil
}
func (pieceModel) TokenToId(s string) (int, bool)     { return 0, false }
func (pieceModel) IdToToken(id int) (string, bool)    { return "", false }
func (pieceModel) GetVocab() map[string]int           { return nil }
func (pieceModel) GetVocabSize() int                  { return 0 }
func (pieceModel) Save(dir string, o ...string) error { return nil }

// bounds: texts of 0..4 characters (thorough 0..5) of a letter, a two-byte letter, a dot and a space, encoded with byte-level
// pre-tokenizer and post-processor: offsets leave out the spaces around a token, except the one space at the beginning
// of a text that stands for the prefix space.
func H_C19_offsets() {
	s := over(vp.Pick(0, vp.Bound(4, 5)), "a", "é", ".", " ")
	bl := pretokenizer.NewByteLevel()
	pre, trim := vp.Pick(0, 1) == 1, vp.Pick(0, 1) == 1
	bl.SetAddPrefixSpace(pre)
	bl.SetTrimOffsets(trim)
	tk := tokenizer.NewTokenizer(pieceModel{})
	tk.WithPreTokenizer(bl)
	tk.WithPostProcessor(processor.NewByteLevelProcessing(bl))
	cs := chars(s)
	if pre && len(cs) > 0 && cs[0].r != ' ' {
		cs = append([]ch{{' ', cs[0].a, cs[0].b}}, cs...)
	}
	want := levels(cs)
	en, err := tk.EncodeSingle(s, true)
	vp.Assert(err == nil, "byte level encoding: no error")
	vp.Assert(len(en.Offsets) == len(want), "byte level encoding: number of tokens")
	for i, w := range want {
		a, b := w[0].a, w[len(w)-1].b
		if trim {
			lead, k := 0, len(w)
			for lead < k && w[lead].r == ' ' {
				lead++
			}
			trail := 0
			for trail < k && w[k-1-trail].r == ' ' {
				trail++
			}
			if !(i == 0 && pre && lead == 1) {
				a += lead
				if a > b {
					a = b
				}
			}
			if trail > 0 && b >= trail {
				b -= trail
				if b < a {
					b = a
				}
			}
		}
		vp.Assert(en.Offsets[i][0] == a && en.Offsets[i][1] == b, "byte level encoding: offsets of a token")
	}
	vp.Assert(strings.Join(en.Tokens, "") != "" || len(s) == 0, "byte level encoding: tokens")
	vp.Reach("offsets")
}

// levelEnc is an encoding of n tokens of up to m characters each, with any ordered offsets, and the encoding that the
// post-processor should make of it.
func levelEnc(n int, pre bool) (in, want tokenizer.Encoding) {
	at := 0
	for i := 0; i < n; i++ {
		t := []string{"a", "Ġ", "Ġa", "ĠĠa", "aĠ", "aĠĠ", "ĠaĠ", "ĠĠ"}[vp.Pick(0, 7)]
		a := at + vp.Int(0, 2)
		b := a + vp.Int(0, 3)
		at = b
		in.Ids = append(in.Ids, i)
		in.Tokens = append(in.Tokens, t)
		in.TypeIds = append(in.TypeIds, 0)
		in.Words = append(in.Words, i)
		in.SpecialTokenMask = append(in.SpecialTokenMask, 0)
		in.AttentionMask = append(in.AttentionMask, 1)
		in.Offsets = append(in.Offsets, []int{a, b})
		lead := len([]rune(t)) - len([]rune(strings.TrimLeft(t, "Ġ")))
		trail := len([]rune(t)) - len([]rune(strings.TrimRight(t, "Ġ")))
		if i == 0 && pre && lead == 1 {
			lead = 0
		}
		oldb := b
		a = vp.IteInt(a+lead > b, b, a+lead)
		b = vp.IteInt(oldb >= trail, oldb-trail, oldb)
		b = vp.IteInt(b < a, a, b)
		want.Offsets = append(want.Offsets, []int{a, b})
	}
	return in, want
}

// bounds: an encoding of one token with 0..2 overflowing parts (thorough 0..3) of one token, or of two tokens without,
// tokens of 1..3 characters with spaces at either end, every offsets up to 2 apart and 3 long; alone.
func H_C19_process() {
	bl := pretokenizer.NewByteLevel()
	pre := vp.Pick(0, 1) == 1
	bl.SetAddPrefixSpace(pre)
	var in, want tokenizer.Encoding
	if vp.Pick(0, 1) == 0 {
		in, want = levelEnc(2, pre)
	} else {
		in, want = levelEnc(1, pre)
		for k := vp.Pick(0, vp.Bound(2, 3)); k > 0; k-- {
			o, w := levelEnc(1, pre)
			in.Overflowing = append(in.Overflowing, o)
			want.Overflowing = append(want.Overflowing, w)
		}
	}
	got := bl.Process(&in, nil, vp.Pick(0, 1) == 1)
	trimmed(got, &want, "byte level processing")
	vp.Assert(len(got.Overflowing) == len(want.Overflowing), "byte level processing: every overflowing part")
	for i := range want.Overflowing {
		trimmed(&got.Overflowing[i], &want.Overflowing[i], "byte level processing: overflowing part")
	}
	vp.Reach("processed")
}

func trimmed(got, want *tokenizer.Encoding, what string) {
	vp.Assert(len(got.Offsets) == len(want.Offsets) && len(got.Ids) == len(want.Offsets), what+": number of tokens")
	for i, w := range want.Offsets {
		vp.Assert(got.Offsets[i][0] == w[0] && got.Offsets[i][1] == w[1], what+": offsets without the spaces around a token")
	}
}

// bounds: a pair of encodings of 0..1 tokens each (thorough 0..2 in the second), the first with 0..1 overflowing parts of one token.
func H_C19_process_pair() {
	bl := pretokenizer.NewByteLevel()
	pre := vp.Pick(0, 1) == 1
	bl.SetAddPrefixSpace(pre)
	n, k := vp.Pick(0, 1), vp.Pick(0, vp.Bound(1, 2))
	a, wa := levelEnc(n, pre)
	b, wb := levelEnc(k, pre)
	over := vp.Pick(0, 1) == 1
	if over {
		o, w := levelEnc(1, pre)
		a.Overflowing = []tokenizer.Encoding{o}
		wa.Overflowing = []tokenizer.Encoding{w}
	}
	got := bl.Process(&a, &b, false)
	both := tokenizer.Encoding{Offsets: append(wa.Offsets[:n:n], wb.Offsets...)}
	trimmed(got, &both, "byte level processing of a pair")
	if over {
		vp.Assert(len(got.Overflowing) == 1, "byte level processing of a pair: overflowing part")
		o := tokenizer.Encoding{Offsets: append(wa.Overflowing[0].Offsets[:1:1], wb.Offsets...)}
		trimmed(&got.Overflowing[0], &o, "byte level processing of a pair: overflowing part")
	}
	vp.Reach("processed")
}

// bounds: a text of some 70 characters with one of twelve characters at one of six places and a space, apostrophe, digit or letter
// at one of three (thorough six); with and without prefix space.
func H_C19_long() {
	parts := []string{"the  quick 12 br", "wn-fox, é日本", "'s 3.14\t\tit's (a) ", "x", "  we'll see...\n\nзима 2024", ""}
	k, l := vp.Pick(0, 5), vp.Pick(0, vp.Bound(2, 5))
	s := ""
	for i, p := range parts {
		if i == l {
			s += over(1, " ", "'", "7", "z")
		}
		if i == k {
			s += over(1, " ", "a", "9", "-", "é", "\n", "'", "\u00a0", "中", "😀", "٣", "s")
		}
		s += p
	}
	level(s, chars(s))
}
