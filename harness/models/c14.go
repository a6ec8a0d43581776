package models

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/util"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// bounds: the four models, with a vocabulary of 1..3 (thorough 4) tokens in either order; 0..2 (thorough 3) added tokens,
// special or not, of 5 contents of which the model knows some; every id from -2 to 8 (as a symbolic value) looked up.
func H_C14_models() {
	names := []string{"a", "b", "ab", "c"}[:vp.Pick(1, vp.Bound(3, 4))]
	if vp.Pick(0, 1) == 1 {
		for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
			names[i], names[j] = names[j], names[i]
		}
	}
	voc := map[string]int{}
	own := map[string]int{}
	var scores []unigram.TokenScore
	for i, t := range names {
		voc[t], own[t] = i, i
		scores = append(scores, unigram.TokenScore{Token: t, Score: float64(-1 - i)})
	}
	var m tokenizer.Model
	switch vp.Pick(0, 3) {
	case 0:
		b, err := bpe.New(voc, nil, nil, nil, nil, nil)
		vp.Assert(err == nil, "models: built")
		m = b
	case 1:
		w, err := wordpiece.New(model.Vocab(voc), util.NewParams(nil))
		vp.Assert(err == nil, "models: built")
		m = w
	case 2:
		w, err := wordlevel.New(voc, "a")
		vp.Assert(err == nil, "models: built")
		m = w
	case 3:
		u, err := unigram.New(scores, util.NewParams(nil))
		vp.Assert(err == nil, "models: built")
		m = u
	}
	tk := tokenizer.NewTokenizer(m)
	want := map[string]int{}
	tokens := map[int]string{}
	for t, id := range own {
		want[t], tokens[id] = id, t
	}
	for k := vp.Pick(0, vp.Bound(2, 3)); k > 0; k-- {
		c := []string{"b", "[X]", "xy", "c", ""}[vp.Pick(0, 4)]
		n := 0
		if _, ok := want[c]; !ok && c != "" {
			tokens[len(want)] = c
			want[c] = len(want)
			n = 1
		}
		if vp.Pick(0, 1) == 1 {
			vp.Assert(tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken(c, true)}) == n, "models: number of new tokens")
		} else {
			vp.Assert(tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken(c, false)}) == n, "models: number of new tokens")
		}
	}
	for _, t := range []string{"a", "b", "ab", "c", "[X]", "xy", "", "z"} {
		id, ok := want[t]
		got, found := tk.TokenToId(t)
		vp.Assert(found == ok && (!ok || got == id), "models: id of a token, if it has one")
		id, ok = own[t]
		got, found = m.TokenToId(t)
		vp.Assert(found == ok && (!ok || got == id), "models: the model's own ids stay")
	}
	x := vp.Int(-2, 8)
	t, ok := tokens[x]
	got, found := tk.IdToToken(x)
	vp.Assert(found == ok && (!ok || got == t), "models: token of an id, if it has one")
	got, found = m.IdToToken(x)
	vp.Assert(found == (x >= 0 && x < len(own)) && (!found || got == t), "models: the model knows its own ids only")
	all := tk.GetVocab(true)
	vp.Assert(len(all) == len(want) && tk.GetVocabSize(true) == len(want), "models: size of the vocabulary with added tokens")
	for t, id := range want {
		got, ok := all[t]
		vp.Assert(ok && got == id, "models: the vocabulary has every token")
	}
	mv := tk.GetVocab(false)
	vp.Assert(len(mv) == len(own) && tk.GetVocabSize(false) == len(own) && m.GetVocabSize() == len(own), "models: size of the model's vocabulary")
	for t, id := range own {
		got, ok := mv[t]
		vp.Assert(ok && got == id, "models: the model's vocabulary")
	}
	vp.Reach("looked up")
	vp.Observe("v", x, t, len(want))
}
