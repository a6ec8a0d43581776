package models

import (
	"os"
	"strings"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/util"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// wpRef is greedy longest-match-first over characters; ok is false when some part has no match.
func wpRef(s string, vocab map[string]int, prefix string) (o []tokenizer.Token, ok bool) {
	for p := 0; p < len(s); {
		e := len(s)
		found := false
		for e > p {
			k := s[p:e]
			if p > 0 {
				k = prefix + k
			}
			if id, hit := vocab[k]; hit {
				o = append(o, tokenizer.Token{Id: id, Value: k, Offsets: []int{p, e}})
				found = true
				break
			}
			_, n := utf8.DecodeLastRuneInString(s[p:e])
			e -= n
		}
		if !found {
			return nil, false
		}
		p = e
	}
	return o, true
}

// bounds: words of 0..4 arbitrary characters of 1..3 bytes (thorough 0..5), limits of 2, 3 and 100 characters, two prefixes,
// unknown token in or not in the vocabulary, each of the constructors.
func H_C12_wordpiece() {
	prefix := "##"
	limit := 100
	how := vp.Pick(0, 3)
	if how > 1 {
		prefix = "_"
	}
	v := model.Vocab{"[UNK]": 7, "a": 1, "ab": 2, "é": 3, "aé": 4, prefix + "b": 5, prefix + "é": 6, prefix + "éa": 8, prefix + "bb": 9, "中": 10, prefix + "中b": 11}
	unk := "[UNK]"
	hasUnk := vp.Bool()
	if !hasUnk {
		delete(v, "[UNK]")
	}
	var m tokenizer.Model
	switch how {
	case 0:
		limit = vp.Pick(2, 3)
		m = wordpiece.NewWordPieceBuilder().Vocab(&v).UnkToken("[UNK]").MaxInputCharsPerWord(limit).Build()
	case 1:
		w, err := wordpiece.New(v, util.NewParams(map[string]interface{}{"unk_token": "[UNK]"}))
		vp.Assert(err == nil, "wordpiece: a well-formed model is accepted")
		m = w
	case 2:
		limit = 3
		w, err := wordpiece.New(v, util.NewParams(map[string]interface{}{"continuing_subword_prefix": "_", "max_input_chars_per_word": 3}))
		vp.Assert(err == nil, "wordpiece: a well-formed model is accepted")
		m = w
	case 3:
		b := bpe.NewBpeBuilder()
		b.VocabAndMerges(v, nil)
		b.UnkToken("[UNK]")
		b.ContinuingSubwordPrefix("_")
		bm, err := b.Build()
		vp.Assert(err == nil, "wordpiece: a well-formed model is accepted")
		m = wordpiece.NewWordPieceFromBPE(*bm)
	}
	s := text(vp.Pick(0, vp.Bound(4, 5)), 3)
	got, err := m.Tokenize(s)
	want, ok := wpRef(s, v, prefix)
	vp.Reach("tokenized")
	if utf8.RuneCountInString(s) > limit || !ok {
		if !hasUnk {
			vp.Assert(err != nil, "wordpiece: an unknown word without an unknown token is an error")
			return
		}
		vp.Assert(err == nil, "wordpiece: tokenizes every word")
		vp.Assert(len(got) == 1 && got[0].Id == 7 && got[0].Value == unk, "wordpiece: a word that cannot be composed is one unknown token")
		vp.Assert(got[0].Offsets[0] == 0 && got[0].Offsets[1] == len(s), "wordpiece: the unknown token covers the word")
		return
	}
	vp.Assert(err == nil, "wordpiece: tokenizes every word")
	sameToks(got, want, "wordpiece: longest match first")
	tiles(got, s, "wordpiece")
	vp.Observe("t", got)
}

// bounds: words of 0..3 arbitrary characters of 1..3 bytes; each of the constructors, unknown token given before or not.
func H_C12_wordlevel() {
	v := map[string]int{"a": 0, "ab": 1, "é": 2, "é中": 3}
	unkID, hasUnk := 4, true
	var m *wordlevel.WordLevel
	switch vp.Pick(0, 3) {
	case 0:
		b := wordlevel.NewWordLevelBuilder()
		b.Vocab(v)
		b.UnkToken("<oov>")
		m = b.Build()
	case 1:
		unkID = 5
		v["<oov>"], v["b"] = 5, 4
		b := wordlevel.NewWordLevelBuilder()
		b.Vocab(v)
		b.UnkToken("<oov>")
		m = b.Build()
	case 2:
		v["<unk>"] = 4
		w, err := wordlevel.New(v, "")
		vp.Assert(err == nil, "wordlevel: a well-formed model is accepted")
		m = w
	case 3:
		hasUnk = false
		w, err := wordlevel.New(v, "<oov>")
		vp.Assert(err == nil, "wordlevel: a well-formed model is accepted")
		m = w
	}
	s := text(vp.Pick(0, vp.Bound(3, 4)), 3)
	got, err := m.Tokenize(s)
	vp.Reach("tokenized")
	id, ok := v[s]
	if !ok {
		vp.Assert((err == nil) == hasUnk, "wordlevel: an unknown word without an unknown token is an error")
		if !hasUnk {
			return
		}
		id = unkID
	}
	vp.Assert(err == nil && len(got) == 1, "wordlevel: one token per word")
	vp.Assert(got[0].Id == id && got[0].Offsets[0] == 0 && got[0].Offsets[1] == len(s), "wordlevel: the word's id, or the unknown token's, over the whole word")
	vp.Assert(!ok || got[0].Value == s, "wordlevel: the word itself")
	vp.Observe("t", got)
}

// bounds: words of 98..102 (thorough also 254..257) characters of 1 or 2 bytes, all known but an arbitrary one of 1..3 bytes at
// the start, in the middle or at the end; the default limit of every constructor, and one of 101.
func H_C12_long() {
	how := vp.Pick(0, 5)
	limit := 100
	v := model.Vocab{"[UNK]": 0, "a": 1, "##a": 2, "##aa": 3, "##é": 4, "é": 5}
	var m tokenizer.Model
	switch how {
	case 0:
		m = wordpiece.NewWordPieceBuilder().Vocab(&v).Build()
	case 1:
		m, _ = wordpiece.New(v, util.NewParams(nil))
	case 2, 3:
		f := vp.TempDir() + "/vocab.txt"
		vp.Assert(os.WriteFile(f, []byte("[UNK]\na\n##a\n##aa\n##é\né\n"), 0o644) == nil, "vocabulary written")
		var w wordpiece.WordPiece
		var err error
		if how == 2 {
			w, err = wordpiece.NewWordPieceFromFile(f, "[UNK]")
		} else {
			limit = 101
			w, err = wordpiece.NewWordPieceFromFile(f, "[UNK]", limit)
		}
		vp.Assert(err == nil, "vocabulary read")
		m = w
	case 4:
		b := bpe.NewBpeBuilder()
		b.VocabAndMerges(v, nil)
		b.UnkToken("[UNK]")
		b.ContinuingSubwordPrefix("##")
		bm, err := b.Build()
		vp.Assert(err == nil, "wordpiece: a well-formed model is accepted")
		m = wordpiece.NewWordPieceFromBPE(*bm)
	case 5:
		w := wordpiece.NewWordPiece()
		m = w.Builder().Vocab(&v).UnkToken("[UNK]").Build()
	}
	n := vp.Pick(98, 102)
	if vp.Bound(0, 1) == 1 && vp.Bool() {
		n = vp.Pick(254, 257)
	}
	at := []int{0, n / 2, n - 1}[vp.Pick(0, 2)]
	known := []string{"a", "é"}[vp.Pick(0, 1)]
	s := strings.Repeat(known, at) + string(char(3)) + strings.Repeat(known, n-1-at)
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "long words: no error")
	want, ok := wpRef(s, v, "##")
	vp.Reach("tokenized")
	if n > limit || !ok {
		vp.Assert(len(got) == 1 && got[0].Id == 0 && got[0].Value == "[UNK]" && got[0].Offsets[0] == 0 && got[0].Offsets[1] == len(s), "long words: too long or unknown is one unknown token")
		return
	}
	sameToks(got, want, "long words: longest match first")
	vp.Observe("t", len(got))
}
