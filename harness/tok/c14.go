package tok

import (
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// bounds: up to 3 calls that each add 1 token (the first 1..2; thorough each 1..2) out of 4 contents (one empty, one in the
// model) as special or ordinary tokens, in every order, with vocabulary queries after each call; then decoding 0..1 ids
// (thorough 0..2).
func H_C14_ids() {
	contents := []string{"x", "yy", "a", ""}
	m := model{map[string]int{"a": 0, "b": 1, "c": 2}}
	t := tokenizer.NewTokenizer(m)
	ids := map[string]int{"a": 0, "b": 1, "c": 2}
	special := map[string]bool{}
	added := 0
	for k := vp.Pick(1, 3); k > 0; k-- {
		var toks []tokenizer.AddedToken
		sp := vp.Bool()
		n := 0
		more := vp.Bound(1, 2)
		if len(ids) == 3 {
			more = 2
		}
		for j := vp.Pick(1, more); j > 0; j-- {
			c := contents[vp.Pick(0, len(contents)-1)]
			toks = append(toks, tokenizer.NewAddedToken(c, sp))
			if c == "" {
				continue
			}
			if sp {
				special[c] = true
			}
			if _, ok := ids[c]; !ok {
				ids[c] = 3 + added
				added++
				n++
			}
		}
		var got int
		if sp {
			got = t.AddSpecialTokens(toks)
		} else {
			got = t.AddTokens(toks)
		}
		vp.Assert(got == n, "adding tokens: number of new tokens")
		v := t.GetVocab(true)
		vp.Assert(len(v) == len(ids) && t.GetVocabSize(true) == len(ids), "adding tokens: vocabulary size")
		vp.Assert(len(t.GetVocab(false)) == 3 && t.GetVocabSize(false) == 3, "adding tokens: the model's vocabulary stays as it is")
		v["zzz"] = 77
		for c, id := range ids {
			g, ok := t.TokenToId(c)
			vp.Assert(ok && g == id, "adding tokens: a token keeps the id it was given first")
			s, ok := t.IdToToken(id)
			vp.Assert(ok && s == c, "adding tokens: an id stands for one token")
			vp.Assert(v[c] == id, "adding tokens: the vocabulary lists every token")
		}
		_, ok := t.TokenToId("zzz")
		_, ok2 := t.TokenToId("")
		vp.Assert(!ok && !ok2, "adding tokens: nothing else is in the vocabulary")
		_, ok = t.IdToToken(3 + added)
		_, ok2 = t.IdToToken(-1)
		vp.Assert(!ok && !ok2, "adding tokens: ids beyond the vocabulary stand for nothing")
		sps := t.GetSpecialTokens()
		vp.Assert(len(sps) == len(special), "adding tokens: special tokens")
		for _, s := range sps {
			vp.Assert(special[s], "adding tokens: special tokens")
		}
	}
	vp.Reach("added")
	var seq []int
	var all, plain []string
	for k := vp.Pick(0, vp.Bound(1, 2)); k > 0; k-- {
		id := vp.Pick(-1, 6)
		seq = append(seq, id)
		for c, i := range ids {
			if i == id {
				all = append(all, c)
				if !special[c] {
					plain = append(plain, c)
				}
			}
		}
	}
	vp.Assert(t.Decode(seq, false) == strings.Join(all, " "), "decoding: the tokens of the ids in order, unknown ids left out")
	vp.Assert(t.Decode(seq, true) == strings.Join(plain, " "), "decoding: special tokens left out")
	vp.Observe("v", len(ids), t.Decode(seq, true))
}
