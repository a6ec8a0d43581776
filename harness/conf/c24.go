// Package conf holds the harnesses over configurations (tokenizer.json).
package conf

import (
	"os"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/pretrained"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/util"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

type obj = map[string]interface{}
type arr = []interface{}

// num is an arbitrary number of a document, an integer in [lo,hi].
func num(lo, hi int) (interface{}, int) {
	f := vp.Float(lo, hi, 1)
	return f, int(f)
}

// flag is an optional boolean: absent, null, false or true.
func flag(c obj, key string, def bool) bool {
	switch vp.Pick(0, 3) {
	case 0:
		return def
	case 1:
		c[key] = nil
		return def
	case 2:
		c[key] = false
		return false
	}
	c[key] = true
	return true
}

func boolean(c obj, key string) bool {
	b := vp.Pick(0, 1) == 1
	c[key] = b
	return b
}

// over is n characters of the alphabet.
func over(n int, alphabet ...string) string {
	s := ""
	for i := 0; i < n; i++ {
		s += alphabet[vp.Pick(0, len(alphabet)-1)]
	}
	return s
}

// clone is a deep copy.
func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		o := obj{}
		for k, e := range x {
			o[k] = clone(e)
		}
		return o
	case arr:
		o := make(arr, len(x))
		for i, e := range x {
			o[i] = clone(e)
		}
		return o
	}
	return v
}

// normalizerConf is an arbitrary configuration of a normalizer with the normalizer it describes and an alphabet on which
// its options matter.
func normalizerConf(depth int) (obj, normalizer.Normalizer, []string) {
	c := obj{}
	k := vp.Pick(0, 11+min(depth, 1))
	switch k {
	case 0:
		c["type"] = "BertNormalizer"
		clean := flag(c, "clean_text", false)
		chinese := flag(c, "handle_chinese_chars", false)
		lower := flag(c, "lowercase", false)
		accents := flag(c, "strip_accents", lower)
		return c, normalizer.NewBertNormalizer(clean, lower, chinese, accents), []string{"É", "\t", "中"}
	case 1, 2:
		c["type"] = []string{"Strip", "StripNormalizer"}[k-1]
		l := flag(c, "strip_left", false)
		r := flag(c, "strip_right", false)
		return c, normalizer.NewStrip(l, r), []string{" ", "a"}
	case 3:
		c["type"] = "StripAccents"
		return c, normalizer.NewStripAccents(), []string{"e", "\u0301"}
	case 4:
		c["type"] = "NFC"
		return c, normalizer.NewNFC(), []string{"e", "\u0301", "ﬁ"}
	case 5:
		c["type"] = "NFD"
		return c, normalizer.NewNFD(), []string{"é", "ﬁ"}
	case 6:
		c["type"] = "NFKC"
		return c, normalizer.NewNFKC(), []string{"e", "\u0301", "ﬁ"}
	case 7:
		c["type"] = "NFKD"
		return c, normalizer.NewNFKD(), []string{"é", "ﬁ"}
	case 8:
		c["type"] = "Lowercase"
		return c, normalizer.Lowercase(), []string{"a", "É"}
	case 9:
		c["type"] = "Prepend"
		s := []string{"", "▁", "ab"}[vp.Pick(0, 2)]
		c["prepend"] = s
		return c, normalizer.NewPrepend(s), []string{"a", "b"}
	case 10, 11:
		c["type"] = "Replace"
		to := []string{"", "b", "▁"}[vp.Pick(0, 2)]
		c["content"] = to
		pat := []string{"a", ".", "a+"}[vp.Pick(0, 2)]
		if k == 10 {
			c["pattern"] = obj{"String": pat}
			return c, normalizer.NewReplace(normalizer.String, pat, to), []string{"a", ".", "+"}
		}
		c["pattern"] = obj{"Regex": pat}
		return c, normalizer.NewReplace(normalizer.Regex, pat, to), []string{"a", ".", "+"}
	}
	c["type"] = "Sequence"
	var cs arr
	var ns []normalizer.Normalizer
	var al []string
	for n := vp.Pick(0, 2); n > 0; n-- {
		x, n, a := fixedNormalizer()
		cs, ns, al = append(cs, x), append(ns, n), append(al, a...)
	}
	c["normalizers"] = cs
	return c, normalizer.NewSequence(ns), append(al, "É")
}

// fixedNormalizer is one of a few normalizers that do not commute.
func fixedNormalizer() (obj, normalizer.Normalizer, []string) {
	switch vp.Pick(0, 3) {
	case 0:
		return obj{"type": "NFD"}, normalizer.NewNFD(), []string{"e\u0301"}
	case 1:
		return obj{"type": "Lowercase"}, normalizer.Lowercase(), []string{"A"}
	case 2:
		return obj{"type": "Prepend", "prepend": "A"}, normalizer.NewPrepend("A"), []string{"A"}
	}
	return obj{"type": "Replace", "pattern": obj{"String": "a"}, "content": "É"}, normalizer.NewReplace(normalizer.String, "a", "É"), []string{"a"}
}

func sameNormalized(a, b *normalizer.NormalizedString, what string) {
	vp.Assert(a.GetNormalized() == b.GetNormalized() && a.GetOriginal() == b.GetOriginal(), what+": same text")
	x, y := a.Alignments(), b.Alignments()
	vp.Assert(len(x) == len(y), what+": same alignments")
	for i := range x {
		vp.Assert(x[i][0] == y[i][0] && x[i][1] == y[i][1], what+": same alignments")
	}
}

// bounds: every type of normalizer with every value of its options (absent, null, false, true; three patterns, three contents),
// sequences of 0..2; texts of 0..2 characters (thorough 3) on which the options matter.
func H_C24_normalizers() {
	c, want, alphabet := normalizerConf(1)
	before := clone(c).(obj)
	got, err := pretrained.CreateNormalizer(c)
	vp.Assert(err == nil && got != nil, "normalizer: created")
	s := over(vp.Pick(0, vp.Bound(2, 3)), alphabet...)
	a, err1 := got.Normalize(normalizer.NewNormalizedFrom(s))
	b, err2 := want.Normalize(normalizer.NewNormalizedFrom(s))
	vp.Assert(err1 == nil && err2 == nil, "normalizer: no error")
	sameNormalized(a, b, "normalizer")
	sameConf(c, before)
	vp.Reach("normalizer")
}

// sameConf asserts that the data was not changed.
func sameConf(a, b interface{}) {
	vp.Assert(equalConf(a, b), "creating a component leaves its data alone")
}

func equalConf(a, b interface{}) bool {
	switch x := a.(type) {
	case obj:
		y, ok := b.(obj)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !equalConf(e, f) {
				return false
			}
		}
		return true
	case arr:
		y, ok := b.(arr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equalConf(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// bounds: charsmaps with one or two rules, as base64; texts of 0..3 characters.
func H_C24_precompiled() {
	// trie a -> "b" (offset 0), é -> "" (offset 2), as made by sentencepiece
	got, err := pretrained.CreateNormalizer(obj{"type": "Precompiled", "precompiled_charsmap": "!"})
	vp.Assert(err != nil && got == nil, "precompiled: invalid base64 gives an error")
	got, err = pretrained.CreateNormalizer(obj{"type": "Precompiled"})
	vp.Assert(err != nil && got == nil, "precompiled: a missing charsmap gives an error")
	got, err = pretrained.CreateNormalizer(obj{"type": "Precompiled", "precompiled_charsmap": "AA=="})
	vp.Assert(err != nil && got == nil, "precompiled: an incomplete charsmap gives an error")
	// an empty trie
	got, err = pretrained.CreateNormalizer(obj{"type": "Precompiled", "precompiled_charsmap": "AAAAAA=="})
	if err == nil {
		s := over(vp.Pick(0, 3), "a", "é", "中")
		n, err := got.Normalize(normalizer.NewNormalizedFrom(s))
		vp.Assert(err == nil && n.GetNormalized() == s, "precompiled: an empty charsmap changes nothing")
		vp.Reach("precompiled")
	}
}

var behaviors = []string{"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}
var behaviorVals = []normalizer.SplitDelimiterBehavior{normalizer.RemovedBehavior, normalizer.IsolatedBehavior, normalizer.MergedWithPreviousBehavior, normalizer.MergedWithNextBehavior, normalizer.ContiguousBehavior}

// metaspaceConf is an arbitrary configuration of Metaspace.
func metaspaceConf(c obj) *pretokenizer.Metaspace {
	c["type"] = "Metaspace"
	r := []string{"▁", "_"}[vp.Pick(0, 1)]
	c["replacement"] = r
	add := flag(c, "add_prefix_space", false)
	m := pretokenizer.NewMetaspace(r, add)
	switch vp.Pick(0, 4) {
	case 1:
		c["prepend_scheme"] = nil
	case 2:
		c["prepend_scheme"] = "always"
		m = pretokenizer.NewMetaspaceWithScheme(r, pretokenizer.Always)
	case 3:
		c["prepend_scheme"] = "first"
		m = pretokenizer.NewMetaspaceWithScheme(r, pretokenizer.First)
	case 4:
		c["prepend_scheme"] = "never"
		m = pretokenizer.NewMetaspaceWithScheme(r, pretokenizer.Never)
	}
	return m
}

func byteLevelConf(c obj) *pretokenizer.ByteLevel {
	c["type"] = "ByteLevel"
	return &pretokenizer.ByteLevel{AddPrefixSpace: flag(c, "add_prefix_space", false), TrimOffsets: flag(c, "trim_offsets", false)}
}

// preTokenizerConf is an arbitrary configuration of a pre-tokenizer with what it describes.
func preTokenizerConf(k int) (obj, tokenizer.PreTokenizer, []string) {
	c := obj{}
	switch k {
	case 0:
		c["type"] = "BertPreTokenizer"
		return c, pretokenizer.NewBertPreTokenizer(), []string{"a", " ", "!"}
	case 1:
		return c, byteLevelConf(c), []string{"a", " ", "é"}
	case 2, 3:
		c["type"] = []string{"Delimiter", "CharDelimiterSplit"}[k-2]
		c["delimiter"] = []string{"▁", "-"}[vp.Pick(0, 1)]
		return c, pretokenizer.NewCharDelimiterSplit([]rune(c["delimiter"].(string))[0]), []string{"▁", "-", "a"}
	case 4:
		return c, metaspaceConf(c), []string{"a", " ", "▁"}
	case 5:
		c["type"] = "Whitespace"
		return c, pretokenizer.NewWhitespace(), []string{"a", " ", "!"}
	case 6:
		c["type"] = "WhitespaceSplit"
		return c, pretokenizer.NewWhitespaceSplit(), []string{"a", " ", "!"}
	case 7:
		c["type"] = "Punctuation"
		i := vp.Pick(0, 6)
		if i == 6 {
			c["behavior"] = nil
		} else if i < 5 {
			c["behavior"] = behaviors[i]
		}
		if i >= 5 {
			i = 1
		}
		return c, pretokenizer.NewPunctuation(behaviorVals[i]), []string{"a", "!"}
	case 8:
		c["type"] = "Digits"
		return c, pretokenizer.NewDigits(boolean(c, "individual_digits")), []string{"a", "1"}
	case 9:
		c["type"] = "UnicodeScripts"
		return c, pretokenizer.NewUnicodeScript(), []string{"a", "я", "中"}
	}
	c["type"] = "Split"
	i := vp.Pick(0, 4)
	c["behavior"] = behaviors[i]
	inv := boolean(c, "invert")
	pat := []string{"a", ".", "a+"}[vp.Pick(0, 2)]
	if vp.Pick(0, 1) == 0 {
		c["pattern"] = obj{"String": pat}
		return c, pretokenizer.NewSplit(normalizer.NewStringPattern(pat), behaviorVals[i], inv), []string{"a", ".", "+"}
	}
	c["pattern"] = obj{"Regex": pat}
	return c, pretokenizer.NewSplit(normalizer.NewRegexpPattern(pat), behaviorVals[i], inv), []string{"a", ".", "+"}
}

func samePreTokenizer(a, b tokenizer.PreTokenizer, s, what string) {
	x, err1 := a.PreTokenize(tokenizer.NewPreTokenizedString(s))
	y, err2 := b.PreTokenize(tokenizer.NewPreTokenizedString(s))
	vp.Assert(err1 == nil && err2 == nil, what+": no error")
	p, q := x.GetSplits(normalizer.OriginalTarget, tokenizer.Byte), y.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	vp.Assert(len(p) == len(q), what+": same pieces")
	for i := range p {
		vp.Assert(p[i].Value == q[i].Value && p[i].Offsets[0] == q[i].Offsets[0] && p[i].Offsets[1] == q[i].Offsets[1], what+": same pieces")
	}
}

// bounds: every type of pre-tokenizer with every value of its options; texts of 0..3 characters (thorough 4) on which they matter.
func H_C24_pretokenizers() {
	c, want, alphabet := preTokenizerConf(vp.Pick(0, 10))
	before := clone(c).(obj)
	got, err := pretrained.CreatePreTokenizer(c)
	vp.Assert(err == nil && got != nil, "pre-tokenizer: created")
	samePreTokenizer(got, want, over(vp.Pick(0, vp.Bound(3, 4)), alphabet...), "pre-tokenizer")
	sameConf(c, before)
	vp.Reach("pretokenizer")
}

// bounds: sequences of 0..2 of four pre-tokenizers that do not commute; texts of 3 characters.
func H_C24_sequences() {
	cs := arr{}
	var ps []tokenizer.PreTokenizer
	for n := vp.Pick(0, 2); n > 0; n-- {
		switch vp.Pick(0, 3) {
		case 0:
			cs, ps = append(cs, obj{"type": "WhitespaceSplit"}), append(ps, pretokenizer.NewWhitespaceSplit())
		case 1:
			cs, ps = append(cs, obj{"type": "Metaspace", "replacement": "_", "prepend_scheme": "always"}), append(ps, pretokenizer.NewMetaspaceWithScheme("_", pretokenizer.Always))
		case 2:
			cs, ps = append(cs, obj{"type": "Digits", "individual_digits": true}), append(ps, pretokenizer.NewDigits(true))
		case 3:
			cs, ps = append(cs, obj{"type": "Split", "pattern": obj{"String": "_"}, "behavior": "MergedWithNext", "invert": false}), append(ps, pretokenizer.NewSplit(normalizer.NewStringPattern("_"), normalizer.MergedWithNextBehavior, false))
		}
	}
	got, err := pretrained.CreatePreTokenizer(obj{"type": "Sequence", "pretokenizers": cs})
	vp.Assert(err == nil && got != nil, "sequence of pre-tokenizers: created")
	samePreTokenizer(got, pretokenizer.NewSequence(ps), over(3, "1", " ", "_", "a"), "sequence of pre-tokenizers")
	vp.Reach("sequence")
}

// decoderConf is an arbitrary configuration of a decoder with what it describes.
func decoderConf(k int) (obj, tokenizer.Decoder, []string) {
	c := obj{}
	switch k {
	case 0, 1:
		c["type"] = []string{"BPE", "BPEDecoder"}[k]
		s := []string{"</w>", "e"}[vp.Pick(0, 1)]
		c["suffix"] = s
		return c, decoder.NewBpeDecoder(s), []string{"e", "a</w>", "</w>"}
	case 2:
		return c, byteLevelConf(c), []string{"Ġa", "Ã", "©"}
	case 3:
		c["type"] = "WordPiece"
		p := []string{"##", "@"}[vp.Pick(0, 1)]
		c["prefix"] = p
		return c, decoder.NewWordPieceDecoder(p, boolean(c, "cleanup")), []string{"##a", "@b", ".", "n't"}
	case 4:
		return c, metaspaceConf(c), []string{"▁a", "_b", "▁"}
	case 5, 6:
		c["type"] = "CTC"
		c["pad_token"] = []string{"<pad>", "_"}[vp.Pick(0, 1)]
		c[[]string{"word_delimiter_token", "word_delimiter"}[k-5]] = "|"
		return c, decoder.NewCTC(c["pad_token"].(string), "|", boolean(c, "cleanup")), []string{"<pad>", "_", "|", "a"}
	case 7:
		c["type"] = "Fuse"
		return c, decoder.NewFuse(), []string{"a", "b"}
	case 8:
		c["type"] = "ByteFallback"
		return c, decoder.NewByteFallback(), []string{"<0xC3>", "<0xA9>", "a"}
	case 9:
		c["type"] = "Strip"
		s := []string{" ", "a"}[vp.Pick(0, 1)]
		a, b := vp.Pick(0, 2), vp.Pick(0, 2)
		c["content"], c["start"], c["stop"] = s, float64(a), float64(b)
		return c, decoder.NewStrip(s, a, b), []string{" a ", "aaa", "  "}
	}
	c["type"] = "Replace"
	pat := []string{"a", ".", "a+"}[vp.Pick(0, 2)]
	to := []string{"", " "}[vp.Pick(0, 1)]
	c["content"] = to
	if k == 10 {
		c["pattern"] = obj{"String": pat}
		return c, normalizer.NewReplace(normalizer.String, pat, to), []string{"a.", "a+", "aa"}
	}
	c["pattern"] = obj{"Regex": pat}
	return c, normalizer.NewReplace(normalizer.Regex, pat, to), []string{"a.", "a+", "aa"}
}

func sameDecoder(a, b tokenizer.Decoder, toks []string, what string) {
	x, y := a.DecodeChain(append([]string{}, toks...)), b.DecodeChain(append([]string{}, toks...))
	vp.Assert(len(x) == len(y), what+": same parts")
	for i := range x {
		vp.Assert(x[i] == y[i], what+": same parts")
	}
	vp.Assert(a.Decode(append([]string{}, toks...)) == b.Decode(append([]string{}, toks...)), what+": same text")
}

// bounds: every type of decoder with every value of its options; 0..2 tokens (thorough 3) on which they matter.
func H_C24_decoders() {
	c, want, pool := decoderConf(vp.Pick(0, 11))
	before := clone(c).(obj)
	var toks []string
	for n := vp.Pick(0, vp.Bound(2, 3)); n > 0; n-- {
		toks = append(toks, pool[vp.Pick(0, len(pool)-1)])
	}
	got, err := pretrained.CreateDecoder(c)
	vp.Assert(err == nil && got != nil, "decoder: created")
	sameDecoder(got, want, toks, "decoder")
	sameConf(c, before)
	vp.Reach("decoder")
}

// bounds: sequences of 0..2 of four decoders that do not commute; two tokens.
func H_C24_decodersequences() {
	cs := arr{}
	var ds []tokenizer.Decoder
	for n := vp.Pick(0, 2); n > 0; n-- {
		switch vp.Pick(0, 3) {
		case 0:
			cs, ds = append(cs, obj{"type": "Fuse"}), append(ds, decoder.NewFuse())
		case 1:
			cs, ds = append(cs, obj{"type": "ByteFallback"}), append(ds, decoder.NewByteFallback())
		case 2:
			cs, ds = append(cs, obj{"type": "Strip", "content": " ", "start": 1.0, "stop": 0.0}), append(ds, decoder.NewStrip(" ", 1, 0))
		case 3:
			cs, ds = append(cs, obj{"type": "Replace", "pattern": obj{"String": "▁"}, "content": " "}), append(ds, normalizer.NewReplace(normalizer.String, "▁", " "))
		}
	}
	got, err := pretrained.CreateDecoder(obj{"type": "Sequence", "decoders": cs})
	vp.Assert(err == nil && got != nil, "sequence of decoders: created")
	pool := []string{"▁a", "▁▁", "<0x20>", "b"}
	sameDecoder(got, decoder.NewSequence(ds), []string{pool[vp.Pick(0, 3)], pool[vp.Pick(0, 3)]}, "sequence of decoders")
	vp.Reach("sequence")
}

// encoding is an encoding of n tokens.
func encoding(n, base int, text string) *tokenizer.Encoding {
	e := tokenizer.DefaultEncoding()
	for i := 0; i < n; i++ {
		e.Ids = append(e.Ids, base+i)
		e.TypeIds = append(e.TypeIds, 0)
		e.Tokens = append(e.Tokens, text)
		e.Offsets = append(e.Offsets, []int{i * 3, i*3 + 3})
		e.SpecialTokenMask = append(e.SpecialTokenMask, 0)
		e.AttentionMask = append(e.AttentionMask, 1)
		e.Words = append(e.Words, i)
	}
	return e
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vp.And(r, a[i] == b[i])
	}
	return r
}

func sameEncoding(a, b *tokenizer.Encoding, what string) {
	vp.Assert(sameInts(a.Ids, b.Ids), what+": same ids")
	vp.Assert(sameInts(a.TypeIds, b.TypeIds), what+": same type ids")
	vp.Assert(sameInts(a.SpecialTokenMask, b.SpecialTokenMask), what+": same special tokens")
	vp.Assert(sameInts(a.AttentionMask, b.AttentionMask), what+": same attention")
	vp.Assert(sameInts(a.Words, b.Words), what+": same words")
	vp.Assert(len(a.Tokens) == len(b.Tokens) && len(a.Offsets) == len(b.Offsets), what+": same tokens")
	for i := range a.Tokens {
		vp.Assert(a.Tokens[i] == b.Tokens[i], what+": same tokens")
		vp.Assert(sameInts(a.Offsets[i], b.Offsets[i]), what+": same offsets")
	}
	vp.Assert(len(a.Overflowing) == len(b.Overflowing), what+": same overflow")
	for i := range a.Overflowing {
		sameEncoding(&a.Overflowing[i], &b.Overflowing[i], what)
	}
}

// template is an arbitrary template as data and as a template.
func template(pieces int, pair bool) (arr, processor.Template) {
	var data arr
	var t processor.Template
	for i := 0; i < pieces; i++ {
		typ, id := num(0, 3)
		switch vp.Pick(0, 3) {
		case 0:
			data = append(data, obj{"Sequence": obj{"id": "A", "type_id": typ}})
			t = append(t, processor.NewSequencePiece("A", id))
		case 1:
			s := "A"
			if pair {
				s = "B"
			}
			data = append(data, obj{"Sequence": obj{"id": s, "type_id": typ}})
			t = append(t, processor.NewSequencePiece(s, id))
		case 2:
			data = append(data, obj{"SpecialToken": obj{"id": "[S]", "type_id": typ}})
			t = append(t, processor.NewSpecialTokenPiece("[S]", id))
		case 3:
			data = append(data, obj{"SpecialToken": obj{"id": "[T]", "type_id": typ}})
			t = append(t, processor.NewSpecialTokenPiece("[T]", id))
		}
	}
	return data, t
}

func processorConf(k int) (obj, tokenizer.PostProcessor) {
	c := obj{}
	tok := func(key, s string) processor.PostToken {
		d, id := num(0, 1000000)
		c[key] = arr{s, d}
		return processor.PostToken{Value: s, Id: id}
	}
	switch k {
	case 0:
		c["type"] = "RobertaProcessing"
		sep, cls := tok("sep", "</s>"), tok("cls", "<s>")
		trim := boolean(c, "trim_offsets")
		add := boolean(c, "add_prefix_space")
		return c, processor.NewRobertaProcessing(sep, cls, trim, add)
	case 1:
		c["type"] = "BertProcessing"
		sep, cls := tok("sep", "[SEP]"), tok("cls", "[CLS]")
		return c, processor.NewBertProcessing(sep, cls)
	case 2:
		return c, processor.NewByteLevelProcessing(byteLevelConf(c))
	}
	c["type"] = "TemplateProcessing"
	single, st := template(vp.Pick(0, 2), false)
	pair, pt := template(vp.Pick(1, vp.Bound(2, 3)), true)
	c["single"], c["pair"] = single, pair
	i, a := num(0, 1000000)
	j, b := num(0, 1000000)
	k1, k2 := num(0, 1000000)
	c["special_tokens"] = obj{
		"[S]": obj{"id": "[S]", "ids": arr{i}, "tokens": arr{"s"}},
		"[T]": obj{"id": "[T]", "ids": arr{j, k1}, "tokens": arr{"t", "u"}},
	}
	return c, processor.NewTemplateProcessing(st, pt, processor.NewTokensFrom([]processor.SpecialToken{
		*processor.NewSpecialToken("[S]", []int{a}, []string{"s"}), *processor.NewSpecialToken("[T]", []int{b, k2}, []string{"t", "u"})}))
}

func sameProcessor(got, want tokenizer.PostProcessor, pair, special bool, what string) {
	vp.Assert(got.AddedTokens(pair) == want.AddedTokens(pair), what+": same number of added tokens")
	var p, q *tokenizer.Encoding
	if pair {
		p, q = encoding(1, 20, "Ġb"), encoding(1, 20, "Ġb")
	}
	x := got.Process(encoding(2, 10, "Ġa"), p, special)
	y := want.Process(encoding(2, 10, "Ġa"), q, special)
	sameEncoding(x, y, what)
}

// bounds: every type of post-processor with every value of its options (ids 0..1000000, type ids 0..3; templates of 0..2 and 1..2
// pieces, thorough 3); one or two encodings.
func H_C24_processors() {
	c, want := processorConf(vp.Pick(0, 3))
	before := clone(c).(obj)
	got, err := pretrained.CreatePostProcessor(c)
	vp.Assert(err == nil && got != nil, "post-processor: created")
	pair := vp.Pick(0, 1) == 1
	sameProcessor(got, want, pair, vp.Pick(0, 1) == 1, "post-processor")
	sameConf(c, before)
	vp.Reach("processor")
}

// bounds: templates of 3..5 (single) and 4..7 (pair) pieces in shapes that models use, every type id 0..3 and token id 0..1000000.
func H_C24_templates() {
	parse := func(shape string) (data arr, t processor.Template) {
		for _, c := range shape {
			typ, id := num(0, 3)
			key := "SpecialToken"
			if c == 'A' || c == 'B' {
				key = "Sequence"
				t = append(t, processor.NewSequencePiece(string(c), id))
			} else {
				t = append(t, processor.NewSpecialTokenPiece(string(c), id))
			}
			data = append(data, obj{key: obj{"id": string(c), "type_id": typ}})
		}
		return data, t
	}
	c := obj{"type": "TemplateProcessing"}
	single, st := parse([]string{"cAs", "ccAss", "Asss", "cAcA"}[vp.Pick(0, 3)])
	pair, pt := parse([]string{"cAsBs", "cAssBs", "ABcs", "scAscBs", "BsAs"}[vp.Pick(0, 4)])
	c["single"], c["pair"] = single, pair
	toks := obj{}
	var ts []processor.SpecialToken
	for _, s := range []string{"c", "s", "t"} {
		d, id := num(0, 1000000)
		toks[s] = obj{"id": s, "ids": arr{d}, "tokens": arr{"<" + s + ">"}}
		ts = append(ts, *processor.NewSpecialToken(s, []int{id}, []string{"<" + s + ">"}))
	}
	c["special_tokens"] = toks
	before := clone(c).(obj)
	got, err := pretrained.CreatePostProcessor(c)
	vp.Assert(err == nil && got != nil, "template: created")
	sameProcessor(got, processor.NewTemplateProcessing(st, pt, processor.NewTokensFrom(ts)), vp.Pick(0, 1) == 1, vp.Pick(0, 1) == 1, "template")
	sameConf(c, before)
	vp.Reach("template")
}

// bounds: sequences of 1..2 post-processors on one encoding; templates without special tokens.
func H_C24_processorsequences() {
	var cs arr
	var ps []tokenizer.PostProcessor
	for n := vp.Pick(1, 2); n > 0; n-- {
		if vp.Pick(0, 1) == 0 {
			cs, ps = append(cs, obj{"type": "ByteLevel", "trim_offsets": true}), append(ps, processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{TrimOffsets: true}))
		} else {
			cs = append(cs, obj{"type": "BertProcessing", "sep": arr{"[SEP]", 1.0}, "cls": arr{"[CLS]", 2.0}})
			ps = append(ps, processor.NewBertProcessing(processor.PostToken{Value: "[SEP]", Id: 1}, processor.PostToken{Value: "[CLS]", Id: 2}))
		}
	}
	got, err := pretrained.CreatePostProcessor(obj{"type": "Sequence", "processors": cs})
	vp.Assert(err == nil && got != nil, "sequence of post-processors: created")
	sameProcessor(got, processor.NewSequence(ps), false, vp.Pick(0, 1) == 1, "sequence of post-processors")
	got, err = pretrained.CreatePostProcessor(obj{"type": "TemplateProcessing", "single": arr{obj{"Sequence": obj{"id": "A", "type_id": 1.0}}}})
	vp.Assert(err == nil && got != nil, "template without special tokens: created")
	e := got.Process(encoding(1, 10, "a"), nil, true)
	vp.Assert(sameInts(e.Ids, []int{10}) && sameInts(e.TypeIds, []int{1}), "template without special tokens: applied")
	vp.Reach("sequence")
}

func opt(c obj, key string, vals ...string) *string {
	i := vp.Pick(0, len(vals)+1)
	if i == 0 {
		return nil
	}
	if i == 1 {
		c[key] = nil
		return nil
	}
	c[key] = vals[i-2]
	return &vals[i-2]
}

func vocab(c obj, words ...string) map[string]int {
	data := obj{}
	v := map[string]int{}
	for i, w := range words {
		data[w] = float64(i)
		v[w] = i
	}
	c["vocab"] = data
	return v
}

func sameModel(a, b tokenizer.Model, s, what string) {
	va, vb := a.GetVocab(), b.GetVocab()
	vp.Assert(len(va) == len(vb) && a.GetVocabSize() == b.GetVocabSize(), what+": same vocabulary")
	for t, id := range vb {
		x, ok := a.TokenToId(t)
		vp.Assert(ok && x == id && va[t] == id, what+": same vocabulary")
		y, ok := a.IdToToken(id)
		z, ok2 := b.IdToToken(id)
		vp.Assert(ok == ok2 && y == z, what+": same ids")
	}
	var x, y []tokenizer.Token
	var err1, err2 error
	p1 := vp.Panics(func() { x, err1 = a.Tokenize(s) })
	p2 := vp.Panics(func() { y, err2 = b.Tokenize(s) })
	vp.Assert(p1 == p2 && (err1 == nil) == (err2 == nil) && len(x) == len(y), what+": same tokens")
	if p1 || err1 != nil {
		return
	}
	for i := range x {
		vp.Assert(x[i].Id == y[i].Id && x[i].Value == y[i].Value && sameInts(x[i].Offsets, y[i].Offsets), what+": same tokens")
	}
}

// modelConf is an arbitrary configuration of a model with what it describes.
func modelConf(k int) (obj, tokenizer.Model, []string) {
	c := obj{}
	switch k {
	case 0:
		c["type"] = "BPE"
		unk := opt(c, "unk_token", "u", "b")
		pre := opt(c, "continuing_subword_prefix", "#")
		suf := opt(c, "end_of_word_suffix", "$")
		words := []string{"u", "a", "b", "ab", "aba", "a$", "b$", "#a", "#b", "#a$", "#b$", "ab$"}
		v := vocab(c, words...)
		merges := []string{"a b", "ab a"}
		if pre != nil {
			merges = []string{"a #b"}
		} else if suf != nil {
			merges = []string{"a b$"}
		}
		var data arr
		form := vp.Pick(0, 1)
		for _, m := range merges {
			if form == 0 {
				data = append(data, m)
			} else {
				p := strings.Split(m, " ")
				data = append(data, arr{p[0], p[1]})
			}
		}
		c["merges"] = data
		if vp.Pick(0, 1) == 1 {
			c["dropout"] = nil
		}
		m, err := bpe.New(v, merges, nil, unk, pre, suf)
		vp.Assert(err == nil, "BPE: created")
		return c, m, []string{"a", "b", "x"}
	case 1:
		if vp.Pick(0, 1) == 1 {
			c["type"] = "WordPiece"
		}
		p := util.NewParams(nil)
		if s := opt(c, "unk_token", "a", "b"); s != nil {
			p.Set("unk_token", *s)
		}
		if s := opt(c, "continuing_subword_prefix", "#"); s != nil {
			p.Set("continuing_subword_prefix", *s)
		}
		switch vp.Pick(0, 2) {
		case 1:
			c["max_input_chars_per_word"] = nil
		case 2:
			d, n := num(1, 3)
			c["max_input_chars_per_word"] = d
			p.Set("max_input_chars_per_word", n)
		}
		m, err := wordpiece.New(vocab(c, "a", "b", "#a", "##b", "#b", "[UNK]"), p)
		vp.Assert(err == nil, "WordPiece: created")
		return c, m, []string{"a", "b", "x"}
	case 2:
		c["type"] = "WordLevel"
		unk := ""
		if s := opt(c, "unk_token", "a", "u"); s != nil {
			unk = *s
		}
		m, err := wordlevel.New(vocab(c, "a", "b", "u", "<unk>"), unk)
		vp.Assert(err == nil, "WordLevel: created")
		return c, m, []string{"a", "b", "x"}
	}
	c["type"] = "Unigram"
	p := util.NewParams(nil)
	switch vp.Pick(0, 2) {
	case 0:
		c["unk_id"] = nil
	case 1:
		c["unk_id"] = 0.0
		p.Set("unk_id", 0)
	case 2:
		c["unk_id"] = 2.0
		p.Set("unk_id", 2)
	}
	p.Set("byte_fallback", flag(c, "byte_fallback", false))
	p.Set("fuse_unk", flag(c, "fuse_unk", true))
	var data arr
	var v []unigram.TokenScore
	for i, w := range []string{"<unk>", "a", "b", "ab", "<0x78>"} {
		sc := -1.5 - float64(i)/2
		if w == "ab" {
			sc = -float64(vp.Pick(1, 5))
		}
		data = append(data, arr{w, sc})
		v = append(v, unigram.TokenScore{Token: w, Score: sc})
	}
	c["vocab"] = data
	m, err := unigram.New(v, p)
	vp.Assert(err == nil, "Unigram: created")
	return c, m, []string{"a", "b", "x"}
}

// bounds: every type of model (given or, for WordPiece, guessed from the decoder) with every value of its options; words of 1..2
// characters (thorough 3) on which they matter.
func H_C24_models() {
	k := vp.Pick(0, 3)
	c, want, alphabet := modelConf(k)
	before := clone(c).(obj)
	conf := &tokenizer.Config{Model: c}
	if k == 1 {
		conf.Decoder = obj{"type": "WordPiece", "prefix": "##", "cleanup": true}
	}
	got, err := pretrained.CreateModel(conf)
	vp.Assert(err == nil && got != nil, "model: created")
	sameModel(got, want, over(vp.Pick(1, vp.Bound(2, 3)), alphabet...), "model")
	sameConf(c, before)
	vp.Reach("model")
}

// bounds: dropouts of 1/8 to 1 in steps of 1/8; models with a type that is guessed from each type of decoder.
func H_C24_guess() {
	c := obj{}
	vocab(c, "a", "ab", "b")
	c["merges"] = arr{"a b"}
	k := vp.Pick(1, 8)
	c["dropout"] = float64(k) / 8
	m, err := pretrained.CreateModel(&tokenizer.Config{Model: c})
	vp.Assert(err == nil, "model without a type: BPE")
	b, ok := m.(*bpe.BPE)
	vp.Assert(ok, "model without a type: BPE")
	vp.Assert(b.Dropout != nil && *b.Dropout == float32(float64(k)/8), "BPE: dropout")
	c = obj{}
	vocab(c, "a", "b", "<unk>", "[UNK]")
	c["merges"] = arr{}
	dec := []string{"ByteLevel", "WordPiece", "WordLevel", "Fuse"}[vp.Pick(0, 3)]
	m, err = pretrained.CreateModel(&tokenizer.Config{Model: c, Decoder: obj{"type": dec}})
	vp.Assert(err == nil, "model without a type: guessed")
	switch m.(type) {
	case *bpe.BPE:
		vp.Assert(dec == "ByteLevel" || dec == "Fuse", "model without a type: BPE")
	case *wordpiece.WordPiece:
		vp.Assert(dec == "WordPiece", "model without a type: WordPiece")
	case *wordlevel.WordLevel:
		vp.Assert(dec == "WordLevel", "model without a type: WordLevel")
	default:
		vp.Assert(false, "model without a type: guessed")
	}
	vp.Reach("guessed")
}

// bounds: every strategy, all lengths, strides, sizes and ids in 0..1000000, both directions.
func H_C24_params() {
	ml, n := num(0, 1000000)
	st, k := num(0, 1000000)
	i := vp.Pick(0, 2)
	t, err := pretrained.CreateTruncationParams(obj{"direction": "Right", "max_length": ml, "stride": st, "strategy": []string{"LongestFirst", "OnlyFirst", "OnlySecond"}[i]})
	vp.Assert(err == nil && t != nil, "truncation: created")
	vp.Assert(vp.And(t.MaxLength == n, t.Stride == k), "truncation: lengths")
	vp.Assert(t.Strategy == []tokenizer.TruncationStrategy{tokenizer.LongestFirst, tokenizer.OnlyFirst, tokenizer.OnlySecond}[i], "truncation: strategy")

	size, sz := num(1, 1000000)
	id, pid := num(0, 1000000)
	typ, tid := num(0, 1000000)
	tok := []string{"[PAD]", "<pad>"}[vp.Pick(0, 1)]
	c := obj{"pad_id": id, "pad_type_id": typ, "pad_token": tok, "pad_to_multiple_of": nil}
	fixed := vp.Pick(0, 1) == 1
	if fixed {
		c["strategy"] = obj{"Fixed": size}
	} else {
		c["strategy"] = "BatchLongest"
	}
	left := vp.Pick(0, 1) == 1
	c["direction"] = "Right"
	if left {
		c["direction"] = "Left"
	}
	p, err := pretrained.CreatePaddingParams(c)
	vp.Assert(err == nil && p != nil, "padding: created")
	vp.Assert(vp.And(p.PadId == pid, p.PadTypeId == tid), "padding: ids")
	vp.Assert(p.PadToken == tok, "padding: token")
	vp.Assert((p.Direction == tokenizer.Left) == left, "padding: direction")
	want := tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	if fixed {
		want = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(sz))
	}
	vp.Assert(p.Strategy.Name == want.Name && p.Strategy.Value == want.Value, "padding: strategy")
	// no parameters
	t, err = pretrained.CreateTruncationParams(nil)
	vp.Assert(err == nil && t == nil, "truncation: none")
	p, err = pretrained.CreatePaddingParams(nil)
	vp.Assert(err == nil && p == nil, "padding: none")
	vp.Reach("params")
}

// bounds: every kind of component, with a type that does not exist, at the top and in a sequence; invalid patterns, behaviors,
// prepend schemes and merges.
func H_C24_unknown() {
	bad := obj{"type": "NoSuchType"}
	var err error
	switch vp.Pick(0, 15) {
	case 0:
		_, err = pretrained.CreateNormalizer(bad)
	case 1:
		_, err = pretrained.CreateNormalizer(obj{"type": "Sequence", "normalizers": arr{obj{"type": "NFC"}, bad}})
	case 2:
		_, err = pretrained.CreatePreTokenizer(bad)
	case 3:
		_, err = pretrained.CreatePreTokenizer(obj{"type": "Sequence", "pretokenizers": arr{obj{"type": "Whitespace"}, bad}})
	case 4:
		_, err = pretrained.CreatePostProcessor(bad)
	case 5:
		_, err = pretrained.CreatePostProcessor(obj{"type": "Sequence", "processors": arr{obj{"type": "ByteLevel"}, bad}})
	case 6:
		_, err = pretrained.CreateDecoder(bad)
	case 7:
		_, err = pretrained.CreateDecoder(obj{"type": "Sequence", "decoders": arr{obj{"type": "Fuse"}, bad}})
	case 8:
		_, err = pretrained.CreateModel(&tokenizer.Config{Model: bad})
	case 9:
		_, err = pretrained.CreateNormalizer(obj{"type": "Nmt"})
	case 10:
		_, err = pretrained.CreatePreTokenizer(obj{"type": "Split", "pattern": obj{"Regex": "(?!a)"}, "behavior": "Isolated", "invert": false})
	case 11:
		_, err = pretrained.CreateDecoder(obj{"type": "Replace", "pattern": obj{"Regex": "("}, "content": ""})
	case 12:
		_, err = pretrained.CreatePreTokenizer(obj{"type": []string{"Split", "Punctuation"}[vp.Pick(0, 1)], "pattern": obj{"String": "a"}, "behavior": "NoSuchBehavior", "invert": false})
	case 13:
		c := obj{"type": "Metaspace", "replacement": "▁", "prepend_scheme": "sometimes"}
		if vp.Pick(0, 1) == 0 {
			_, err = pretrained.CreatePreTokenizer(c)
		} else {
			_, err = pretrained.CreateDecoder(c)
		}
	case 14:
		c := obj{"type": "BPE", "merges": []arr{{"a b", "b a"}, {"a"}, {arr{"a"}}, {arr{"a", "b", "a"}}}[vp.Pick(0, 3)]}
		vocab(c, "a", "b", "ab", "aba")
		_, err = pretrained.CreateModel(&tokenizer.Config{Model: c})
	case 15:
		c := obj{"type": "Unigram", "vocab": []arr{{arr{"a"}}, {}}[vp.Pick(0, 1)], "unk_id": 0.0}
		_, err = pretrained.CreateModel(&tokenizer.Config{Model: c})
	}
	vp.Assert(err != nil, "invalid data gives an error")
	vp.Reach("invalid")
}

// document is a complete document.
func document(norm, pre, post, dec, trunc, pad, added bool) string {
	sec := func(on bool, key, val string) string {
		if on {
			return `,"` + key + `":` + val
		}
		return `,"` + key + `":null`
	}
	return `{"version":"1.0"` +
		sec(trunc, "truncation", `{"direction":"Right","max_length":6,"strategy":"LongestFirst","stride":1}`) +
		sec(pad, "padding", `{"strategy":{"Fixed":8},"direction":"Left","pad_to_multiple_of":null,"pad_id":5,"pad_type_id":7,"pad_token":"[PAD]"}`) +
		sec(norm, "normalizer", `{"type":"BertNormalizer","clean_text":true,"handle_chinese_chars":true,"strip_accents":null,"lowercase":true}`) +
		sec(pre, "pre_tokenizer", `{"type":"Sequence","pretokenizers":[{"type":"WhitespaceSplit"},{"type":"Punctuation"}]}`) +
		sec(post, "post_processor", `{"type":"TemplateProcessing","single":[{"SpecialToken":{"id":"[CLS]","type_id":0}},{"Sequence":{"id":"A","type_id":0}}],`+
			`"pair":[{"SpecialToken":{"id":"[CLS]","type_id":0}},{"Sequence":{"id":"A","type_id":0}},{"Sequence":{"id":"B","type_id":1}}],`+
			`"special_tokens":{"[CLS]":{"id":"[CLS]","ids":[4],"tokens":["[CLS]"]}}}`) +
		sec(dec, "decoder", `{"type":"WordPiece","prefix":"##","cleanup":true}`) +
		sec(added, "added_tokens", `[{"id":0,"content":"[UNK]","single_word":false,"lstrip":false,"rstrip":false,"normalized":false,"special":true},`+
			`{"id":9,"content":"Ab","single_word":true,"lstrip":false,"rstrip":true,"normalized":true,"special":false},`+
			`{"id":10,"content":"[X]","single_word":false,"lstrip":true,"rstrip":false,"normalized":false,"special":true},`+
			`{"id":11,"content":"É","single_word":false,"lstrip":false,"rstrip":false,"normalized":true,"special":false}]`) +
		`,"model":{"type":"WordPiece","unk_token":"[UNK]","continuing_subword_prefix":"##","max_input_chars_per_word":100,` +
		`"vocab":{"[UNK]":0,"a":1,"##a":2,"!":3,"[CLS]":4,"[PAD]":5,"b":6,"é":7,"##b":8}}}`
}

// described is the tokenizer that the document describes.
func described(norm, pre, post, dec, trunc, pad, added bool) *tokenizer.Tokenizer {
	p := util.NewParams(nil)
	m, err := wordpiece.New(map[string]int{"[UNK]": 0, "a": 1, "##a": 2, "!": 3, "[CLS]": 4, "[PAD]": 5, "b": 6, "é": 7, "##b": 8}, p)
	vp.Assert(err == nil, "document: model")
	tk := tokenizer.NewTokenizer(m)
	if norm {
		tk.WithNormalizer(normalizer.NewBertNormalizer(true, true, true, true))
	}
	if pre {
		tk.WithPreTokenizer(pretokenizer.NewSequence([]tokenizer.PreTokenizer{pretokenizer.NewWhitespaceSplit(), pretokenizer.NewPunctuation(normalizer.IsolatedBehavior)}))
	}
	if post {
		single, _ := processor.NewTemplate("[CLS] $A")
		pair, _ := processor.NewTemplate("[CLS] $A $B:1")
		tk.WithPostProcessor(processor.NewTemplateProcessing(single, pair, processor.NewTokensFrom([]processor.SpecialToken{*processor.NewSpecialTokenFrom("[CLS]", 4)})))
	}
	if dec {
		tk.WithDecoder(decoder.NewWordPieceDecoder("##", true))
	}
	if added {
		tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[UNK]", true)})
		tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("Ab", false).SetSingleWord(true).SetRStrip(true)})
		tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[X]", true).SetLStrip(true)})
		tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("É", false)})
	}
	if trunc {
		tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 6, Strategy: tokenizer.LongestFirst, Stride: 1})
	}
	if pad {
		tk.WithPadding(&tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(8)), Direction: tokenizer.Left, PadId: 5, PadTypeId: 7, PadToken: "[PAD]"})
	}
	return tk
}

// bounds: documents in which every section is present or null (quick: all, none or all but one); texts of 1..2 (thorough 3) pieces
// on which the sections matter, alone or with a second text.
func H_C24_documents() {
	on := [7]bool{true, true, true, true, true, true, true}
	if vp.Bound(0, 1) == 0 {
		switch k := vp.Pick(0, 8); k {
		case 8:
			on = [7]bool{}
		case 7:
		default:
			on[k] = false
		}
	} else {
		for i := range on {
			on[i] = vp.Pick(0, 1) == 1
		}
	}
	got, err := pretrained.FromReader(strings.NewReader(document(on[0], on[1], on[2], on[3], on[4], on[5], on[6])))
	vp.Assert(err == nil && got != nil, "document: created")
	want := described(on[0], on[1], on[2], on[3], on[4], on[5], on[6])
	vp.Assert(got.GetVocabSize(true) == want.GetVocabSize(true) && got.GetVocabSize(false) == want.GetVocabSize(false), "document: same vocabulary")
	if on[6] {
		for s, id := range map[string]int{"[UNK]": 0, "Ab": 9, "[X]": 10, "É": 11} {
			x, ok := got.TokenToId(s)
			vp.Assert(ok && x == id, "document: added tokens have their ids")
		}
	}
	s := over(vp.Pick(1, vp.Bound(2, 3)), "Ab", " [X]", "É", "b!", " aa")
	var in tokenizer.EncodeInput = tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s))
	if vp.Pick(0, 1) == 1 {
		in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(s), tokenizer.NewInputSequence("a b"))
	}
	special := vp.Pick(0, 1) == 1
	x, err1 := got.Encode(in, special)
	y, err2 := want.Encode(in, special)
	vp.Assert((err1 == nil) == (err2 == nil), "document: same errors")
	if err1 == nil {
		sameEncoding(x, y, "document")
		for _, skip := range []bool{false, true} {
			vp.Assert(got.Decode(x.Ids, skip) == want.Decode(y.Ids, skip), "document: same decoding")
		}
		vp.Reach("encoded")
	}
}

// bounds: documents that are not JSON, are null or have invalid sections.
func H_C24_baddocuments() {
	m := `"model":{"type":"WordLevel","unk_token":"u","vocab":{"u":0}}`
	bad := `{"type":"NoSuchType"}`
	doc := []string{``, `{`, `null`, `[]`, `{"model":` + bad + `}`, `{` + m + `,"normalizer":` + bad + `}`, `{` + m + `,"pre_tokenizer":` + bad + `}`,
		`{` + m + `,"post_processor":` + bad + `}`, `{` + m + `,"decoder":` + bad + `}`, `{` + m + `,"added_tokens":{}}`, `{` + m + `,"version":1}`}[vp.Pick(0, 10)]
	tk, err := pretrained.FromReader(strings.NewReader(doc))
	vp.Assert(err != nil && tk == nil, "an invalid document gives an error")
	tk, err = pretrained.FromReader(strings.NewReader(`{` + m + `}`))
	vp.Assert(err == nil && tk != nil, "a minimal document")
	e, err := tk.EncodeSingle("u")
	vp.Assert(err == nil && sameInts(e.Ids, []int{0}), "a minimal document: encodes")
	vp.Reach("bad")
}

// bounds: 0..3 added tokens with arbitrary flags.
func H_C24_added() {
	var data []tokenizer.TokenConfig
	n := vp.Pick(0, 3)
	for i := 0; i < n; i++ {
		data = append(data, tokenizer.TokenConfig{Id: int64(vp.Int(0, 9)), Content: []string{"a", "b", "c"}[i], SingleWord: vp.Bool(), Lstrip: vp.Bool(), Rstrip: vp.Bool(), Normalized: vp.Bool(), Special: vp.Bool()})
	}
	sp, toks := pretrained.CreateAddedTokens(data)
	vp.Assert(len(sp)+len(toks) == n, "added tokens: all of them")
	for _, d := range data {
		var t tokenizer.AddedToken
		if d.Special {
			vp.Assert(len(sp) > 0, "added tokens: special ones")
			t, sp = sp[0], sp[1:]
		} else {
			vp.Assert(len(toks) > 0, "added tokens: other ones")
			t, toks = toks[0], toks[1:]
		}
		vp.Assert(t.Content == d.Content, "added tokens: in order")
		vp.Assert(vp.And(t.SingleWord == d.SingleWord, t.LStrip == d.Lstrip, t.RStrip == d.Rstrip, t.Normalized == d.Normalized), "added tokens: flags")
	}
	vp.Reach("added")
}

// bounds: a file that is missing, a directory, cut anywhere, or holds the document with all or no sections; an arbitrary text of two ASCII characters.
func H_C24_file() {
	dir := vp.TempDir()
	name := dir + "/tokenizer.json"
	on := vp.Pick(0, 1) == 1
	doc := document(on, on, on, on, on, on, on)
	kind := vp.Pick(0, 3)
	switch kind {
	case 1:
		vp.Assert(os.Mkdir(name, 0o755) == nil, "directory")
	case 2:
		vp.Assert(os.WriteFile(name, []byte(doc[:vp.Pick(0, len(doc)-1)]), 0o600) == nil, "file")
	case 3:
		vp.Assert(os.WriteFile(name, []byte(doc), 0o600) == nil, "file")
	}
	got, err := pretrained.FromFile(name)
	c, cerr := tokenizer.ConfigFromFile(name)
	if kind < 3 {
		vp.Assert(err != nil && got == nil && cerr != nil && c == nil, "a file that is missing or incomplete gives an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil && got != nil && cerr == nil && c != nil, "file: created")
	want := described(on, on, on, on, on, on, on)
	s := vp.ASCII(2, ' ', 0x7f)
	x, err1 := got.EncodeSingle(s, true)
	y, err2 := want.EncodeSingle(s, true)
	vp.Assert(err1 == nil && err2 == nil, "file: encodes")
	sameEncoding(x, y, "file")
	m, err := pretrained.CreateModel(c)
	vp.Assert(err == nil && m.GetVocabSize() == 9, "file: model")
	vp.Reach("encoded")
}
