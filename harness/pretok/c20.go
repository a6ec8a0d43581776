package pretok

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

var schemes = []pretokenizer.PrependScheme{pretokenizer.Never, pretokenizer.First, pretokenizer.Always}

// meta is the reference of the replacement: whitespace becomes the replacement, which is put in front if asked.
func meta(cs []ch, rep rune, prepend bool) []ch {
	var out []ch
	for _, c := range cs {
		if asciiSpace(c.r) {
			c.r = rep
		}
		out = append(out, c)
	}
	if prepend && len(out) > 0 && out[0].r != rep {
		out = append([]ch{{rep, out[0].a, out[0].b}}, out...)
	}
	return out
}

// before cuts in front of every replacement.
func before(cs []ch, rep rune) [][]ch {
	return pieces(perChar(cs, func(r rune) bool { return r == rep }), normalizer.MergedWithNextBehavior)
}

// metaspace is one of the constructors of the three schemes.
func metaspace(rep rune, k int) *pretokenizer.Metaspace {
	if k != 1 && vp.Pick(0, 1) == 1 {
		if rep == '▁' && k == 2 {
			return pretokenizer.DefaultMetaspace()
		}
		return pretokenizer.NewMetaspace(string(rep), k == 2)
	}
	m := pretokenizer.NewMetaspaceWithScheme("x", schemes[k])
	m.SetReplacement(string(rep))
	return m
}

// roundTrip decodes the pieces: the text with every whitespace (and replacement) as a space, without the leading ones of the
// first piece if one may have been added there.
func roundTrip(m *pretokenizer.Metaspace, want [][]ch, rep rune, k int) {
	var toks []string
	text := ""
	for i, w := range want {
		toks = append(toks, str(w))
		for _, c := range w {
			if c.r != rep {
				text += string(c.r)
			} else if i > 0 || k == 0 {
				text += " "
			}
		}
	}
	vp.Assert(m.Decode(toks) == text, "metaspace: decoding gives the text with its spaces")
	chain := m.DecodeChain(toks)
	vp.Assert(len(chain) == len(toks), "metaspace: one text per token")
	all := ""
	for _, c := range chain {
		all += c
	}
	vp.Assert(all == text, "metaspace: the parts of the decoded text")
}

// bounds: texts of 0..3 arbitrary characters of 1..3 bytes (thorough 0..4 of 1..3), replacement '▁' or '_', all schemes.
func H_C20_metaspace() {
	s, cs := text(vp.Pick(0, vp.Bound(3, 4)), 3)
	rep := []rune{'▁', '_'}[vp.Pick(0, 1)]
	k := vp.Pick(0, 2)
	m := metaspace(rep, k)
	want := before(meta(cs, rep, k > 0), rep)
	same(cut(m, s), want, "metaspace")
	roundTrip(m, want, rep, k)
}

// bounds: texts of 0..4 characters (thorough 0..6) of a letter, a four-byte character, space, newline, the replacement;
// the replacement is any ASCII punctuation, '▁' or a letter.
func H_C20_replacements() {
	var rep rune = '▁'
	switch vp.Pick(0, 2) {
	case 1:
		rep = []rune(`!"#$%&'()*+,-./:;<=>?@[\]^_{|}~` + "`")[vp.Pick(0, 31)]
	case 2:
		rep = 'é'
	}
	s := over(vp.Pick(0, vp.Bound(3, 5)), "a", "😀", " ", "\n", string(rep))
	k := vp.Pick(0, 2)
	m := pretokenizer.NewMetaspaceWithScheme(string(rep), schemes[k])
	want := before(meta(chars(s), rep, k > 0), rep)
	same(cut(m, s), want, "metaspace")
	roundTrip(m, want, rep, k)
}

// bounds: texts of 0..4 characters (thorough 0..6) of a letter, '-', a space and the replacement, cut at '-' first: the scheme
// "first" prepends to the first piece only, "always" to every piece.
func H_C20_schemes() {
	s := over(vp.Pick(0, vp.Bound(4, 6)), "a", "-", " ", "▁")
	k := vp.Pick(0, 2)
	var want [][]ch
	for i, w := range pieces(perChar(chars(s), func(r rune) bool { return r == '-' }), normalizer.IsolatedBehavior) {
		want = append(want, before(meta(w, '▁', k == 2 || k == 1 && i == 0), '▁')...)
	}
	seq := pretokenizer.NewSequence([]tokenizer.PreTokenizer{
		pretokenizer.NewSplit(normalizer.NewStringPattern("-"), normalizer.IsolatedBehavior, false),
		pretokenizer.NewMetaspaceWithScheme("▁", schemes[k])})
	same(cut(seq, s), want, "metaspace in sequence")
}

// bounds: 0..3 tokens (thorough 0..4) of 0..2 characters of a letter, a three-byte letter, the replacement: every replacement
// becomes a space, except in the first token when a space may have been added to the text.
func H_C20_decode() {
	k := vp.Pick(0, 2)
	m := metaspace('▁', k)
	var toks [][]ch
	for i, n := 0, vp.Pick(0, vp.Bound(3, 4)); i < n; i++ {
		toks = append(toks, chars(over(vp.Pick(0, 2), "a", "漢", "▁")))
	}
	roundTrip(m, toks, '▁', k)
	vp.Reach("decoded")
}

// bounds: a text of some 70 characters with an arbitrary character of 1..2 bytes at one of six places and a space, tab, letter or
// replacement at one of three (thorough six); all schemes.
func H_C20_long() {
	s, cs := long(" ", "\t", "a", "▁")
	k := vp.Pick(0, 2)
	want := before(meta(cs, '▁', k > 0), '▁')
	m := metaspace('▁', k)
	same(cut(m, s), want, "metaspace")
	roundTrip(m, want, '▁', k)
}
