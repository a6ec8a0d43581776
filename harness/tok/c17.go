package tok

import (
	"sync"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// failing is a model that rejects texts that begin with '!'.
type failing struct{ model }

type rejected struct{}

func (rejected) Error() string { return "rejected" }

func (f failing) Tokenize(s string) ([]tokenizer.Token, error) {
	if s[0] == '!' {
		return nil, rejected{}
	}
	return f.model.Tokenize(s)
}

func sameEnc(a, b *tokenizer.Encoding, what string) {
	n := len(b.Ids)
	vp.Assert(vp.And(len(a.Ids) == n, len(a.Tokens) == n, len(a.Offsets) == n, len(a.TypeIds) == n, len(a.Words) == n, len(a.AttentionMask) == n, len(a.SpecialTokenMask) == n),
		what+": number of tokens")
	for i := 0; i < n; i++ {
		vp.Assert(vp.And(a.Ids[i] == b.Ids[i], a.Tokens[i] == b.Tokens[i], a.TypeIds[i] == b.TypeIds[i], a.Words[i] == b.Words[i],
			a.AttentionMask[i] == b.AttentionMask[i], a.SpecialTokenMask[i] == b.SpecialTokenMask[i],
			a.Offsets[i][0] == b.Offsets[i][0], a.Offsets[i][1] == b.Offsets[i][1]), what+": tokens")
	}
	vp.Assert(len(a.Overflowing) == len(b.Overflowing), what+": overflow windows")
	for i := range b.Overflowing {
		sameEnc(&a.Overflowing[i], &b.Overflowing[i], what+" (overflow)")
	}
}

func single(s string) tokenizer.EncodeInput {
	return tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s))
}

// batch asserts that encoding the inputs as a batch gives what encoding each alone gives, in order, padded together.
func batch(tk *tokenizer.Tokenizer, inputs []tokenizer.EncodeInput, want []tokenizer.Encoding, pad *tokenizer.PaddingParams) {
	got, err := tk.EncodeBatch(inputs, true)
	vp.Assert(err == nil, "batch: no error")
	vp.Assert(len(got) == len(inputs), "batch: one encoding per input")
	if pad != nil {
		want = tokenizer.PadEncodings(want, *pad)
	}
	for i := range got {
		sameEnc(&got[i], &want[i], "batch")
	}
	vp.Reach("batch")
}

// bounds: batches of 0..3 (thorough 4) texts of 1..3 characters, one with an overlong text that is truncated, one that is a pair; with and
// without padding to the longest; every interleaving of the goroutines at their synchronisation operations, and freedom
// from data races.
func H_C17_encode_batch() {
	m := model{vocab: map[string]int{"a": 0}}
	tk := tokenizer.NewTokenizer(m)
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("#", false)})
	tk.WithPreTokenizer(spaces{})
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 2})
	var pad *tokenizer.PaddingParams
	if vp.Pick(0, 1) == 1 {
		pad = &tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest()), Direction: tokenizer.Right, PadId: 5, PadToken: "_"}
	}
	var inputs []tokenizer.EncodeInput
	var want []tokenizer.Encoding
	for i, n := 0, vp.Pick(0, vp.Bound(3, 4)); i < n; i++ {
		var in tokenizer.EncodeInput
		switch vp.Pick(0, 3) {
		case 0:
			in = single(text(1, 2))
		case 1:
			in = single(string([]byte{vp.ByteIn('a', 'z'), ' ', vp.ByteIn('a', 'z')}))
		case 2:
			in = single(string([]byte{vp.ByteIn('a', 'z'), '#', vp.ByteIn('a', 'z')}))
		case 3:
			in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(text(1, 1)), tokenizer.NewInputSequence("b"))
		}
		e, err := tk.Encode(in, true)
		vp.Assert(err == nil, "encode: no error")
		inputs = append(inputs, in)
		want = append(want, *e)
	}
	if pad != nil {
		tk.WithPadding(pad)
	}
	batch(tk, inputs, want, pad)
}

// bounds: batches of 2 (thorough 3) texts, equal or not, of 2 letters, with a BPE model whose cache holds 0..2 words or is missing.
func H_C17_batch_bpe() {
	b := bpe.NewBpeBuilder()
	b.VocabAndMerges(map[string]int{"a": 0, "b": 1, "ab": 2, "?": 3}, bpe.Merges{bpe.Pair{C1: 0, C2: 1}: bpe.PairVal{Rank: 0, NewId: 2}})
	b.UnkToken("?")
	m, err := b.Build()
	vp.Assert(err == nil, "bpe: builds")
	capacity := vp.Pick(-1, 2)
	m.Cache = nil
	if capacity >= 0 {
		m.Cache = bpe.NewCache(capacity)
	}
	tk := tokenizer.NewTokenizer(m)
	var inputs []tokenizer.EncodeInput
	var want []tokenizer.Encoding
	for i := 0; i < vp.Bound(2, 3); i++ {
		s := letters(2)
		var ids []int
		var vals []string
		var offs [][]int
		id := map[byte]int{'a': 0, 'b': 1}
		if s == "ab" {
			ids, vals, offs = []int{2}, []string{"ab"}, [][]int{{0, 2}}
		} else {
			for k := 0; k < 2; k++ {
				ids = append(ids, id[s[k]])
				vals = append(vals, s[k:k+1])
				offs = append(offs, []int{k, k + 1})
			}
		}
		e := tokenizer.Encoding{Ids: ids, Tokens: vals, Offsets: offs}
		for range ids {
			e.TypeIds = append(e.TypeIds, 0)
			e.Words = append(e.Words, 0)
			e.AttentionMask = append(e.AttentionMask, 1)
			e.SpecialTokenMask = append(e.SpecialTokenMask, 0)
		}
		inputs = append(inputs, single(s))
		want = append(want, e)
	}
	batch(tk, inputs, want, nil)
	if m.Cache != nil {
		vp.Assert(m.Cache.GetSize() <= capacity, "batch: the cache stays within its capacity")
	}
}

func letters(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.ByteIn('a', 'b')
	}
	return string(b)
}

// bounds: batches of 2 equal or different texts of 1..2 letters with a Unigram model.
func H_C17_batch_unigram() {
	m, err := unigram.NewUnigramBuilder().Vocab([]unigram.TokenScore{{Token: "?", Score: -9}, {Token: "a", Score: -1}, {Token: "b", Score: -2}, {Token: "ab", Score: -1}}).UnkID(0).Build()
	vp.Assert(err == nil, "unigram: builds")
	tk := tokenizer.NewTokenizer(m)
	texts := []string{letters(vp.Pick(1, 2)), letters(vp.Pick(1, 2))}
	got, err := tk.EncodeBatch([]tokenizer.EncodeInput{single(texts[0]), single(texts[1])}, false)
	vp.Assert(err == nil && len(got) == 2, "batch: one encoding per input")
	for i, s := range texts {
		if s == "ab" {
			vp.Assert(len(got[i].Ids) == 1 && got[i].Ids[0] == 3, "batch: tokens")
			continue
		}
		vp.Assert(len(got[i].Ids) == len(s), "batch: tokens")
		for k := range s {
			vp.Assert(got[i].Ids[k] == 1+int(s[k]-'a') && got[i].Tokens[k] == s[k:k+1], "batch: tokens")
		}
	}
	vp.Reach("batch")
}

// bounds: batches of 1..3 (thorough 4) texts of which any subset is rejected by the model.
func H_C17_batch_error() {
	tk := tokenizer.NewTokenizer(failing{model{}})
	var inputs []tokenizer.EncodeInput
	bad := false
	for i, n := 0, vp.Pick(1, vp.Bound(3, 4)); i < n; i++ {
		if vp.Pick(0, 1) == 1 {
			bad = true
			inputs = append(inputs, single("!"))
		} else {
			inputs = append(inputs, single("a"))
		}
	}
	got, err := tk.EncodeBatch(inputs, false)
	vp.Assert((err != nil) == bad, "batch: an error exactly if some input fails")
	vp.Assert(bad || len(got) == len(inputs), "batch: all encodings")
	vp.Reach("error")
}

// bounds: batches of 0..3 (thorough 4) sequences of 0..2 ids, special tokens skipped or not.
func H_C17_decode_batch() {
	tk := tokenizer.NewTokenizer(model{vocab: map[string]int{"a": 0, "b": 1}})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("#", true)})
	var seqs [][]int
	var want []string
	skip := vp.Pick(0, 1) == 1
	for i, n := 0, vp.Pick(0, vp.Bound(3, 4)); i < n; i++ {
		var ids []int
		for k := vp.Pick(0, 2); k > 0; k-- {
			ids = append(ids, vp.Pick(0, 2))
		}
		seqs = append(seqs, ids)
		want = append(want, tk.Decode(ids, skip))
	}
	got := tk.DecodeBatch(seqs, skip)
	vp.Assert(len(got) == len(seqs), "decode batch: one text per sequence")
	for i := range got {
		vp.Assert(got[i] == want[i], "decode batch: in order")
	}
	vp.Reach("decoded")
}

// bounds: two goroutines of the caller that each encode and decode with one tokenizer (BPE model with a cache of 1 word).
func H_C17_shared() {
	b := bpe.NewBpeBuilder()
	b.VocabAndMerges(map[string]int{"a": 0, "b": 1, "ab": 2}, bpe.Merges{bpe.Pair{C1: 0, C2: 1}: bpe.PairVal{Rank: 0, NewId: 2}})
	b.CacheCapacity(1)
	m, err := b.Build()
	vp.Assert(err == nil, "bpe: builds")
	tk := tokenizer.NewTokenizer(m)
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("#", false)})
	texts := []string{letters(2), letters(1)}
	out := make([]string, 2)
	clear := []bool{vp.Pick(0, 1) == 1, vp.Pick(0, 1) == 1}
	var wg sync.WaitGroup
	for i := range texts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e, err := tk.EncodeSingle(texts[i])
			if err == nil {
				for _, t := range e.Tokens {
					out[i] += t
				}
				if clear[i] {
					m.ClearCache()
				}
			}
		}()
	}
	wg.Wait()
	for i, s := range texts {
		vp.Assert(out[i] == s, "shared tokenizer: the tokens of the text")
	}
	vp.Reach("shared")
}

// bounds: batches of 3 (thorough 4) texts of 0..3 tokens, truncated to 2 or not, padded to the longest or to 2, on either side; two
// schedules.
func H_C17_batch_lengths() {
	m := model{vocab: map[string]int{"a": 0}}
	tk := tokenizer.NewTokenizer(m)
	if vp.Pick(0, 1) == 1 {
		tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 2})
	}
	pad := &tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest()), Direction: tokenizer.Right, PadId: 5, PadToken: "_"}
	if vp.Pick(0, 1) == 1 {
		pad.Strategy = *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(2))
	}
	if vp.Pick(0, 1) == 1 {
		pad.Direction = tokenizer.Left
	}
	var inputs []tokenizer.EncodeInput
	var want []tokenizer.Encoding
	for i, n := 0, vp.Bound(3, 4); i < n; i++ {
		words := []string{}
		for k := vp.Pick(0, 3); k > 0; k-- {
			words = append(words, "a")
		}
		in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(words))
		e, err := tk.Encode(in, true)
		vp.Assert(err == nil, "encode: no error")
		inputs = append(inputs, in)
		want = append(want, *e)
	}
	tk.WithPadding(pad)
	vp.Sched(vp.Pick(1, 2))
	longest := 2
	if pad.Strategy.Name == "BatchLongest" {
		longest = 0
	}
	for i := range want {
		longest = max(longest, want[i].Len())
	}
	batch(tk, inputs, want, pad)
	got, err := tk.EncodeBatch(inputs, true)
	vp.Sched(0)
	vp.Assert(err == nil, "batch: no error")
	for i := range got {
		vp.Assert(got[i].Len() == longest || pad.Strategy.Name != "BatchLongest" && got[i].Len() >= 2, "batch: padded to one length")
	}
}

// bounds: batches of every number of texts from 5 to 40 (thorough 100) and of decoded sequences, in which one at any place is
// longer, or is rejected by the model; two schedules.
func H_C17_many() {
	tk := tokenizer.NewTokenizer(failing{model{vocab: map[string]int{"a": 0, "b": 1, "c": 2, "d": 3, "e": 4}}})
	n := vp.Pick(5, vp.Bound(40, 100))
	at := vp.Pick(0, n-1)
	bad := vp.Pick(0, 1) == 1
	var inputs []tokenizer.EncodeInput
	var seqs [][]int
	texts := make([]string, n)
	for i := range texts {
		texts[i] = string([]byte{"abcde"[i%5], "abcde"[i/5%5], "abcde"[i/25%5]})
		if i == at {
			texts[i] += "abc"
		}
		var ids []int
		for _, c := range []byte(texts[i]) {
			ids = append(ids, int(c-'a'))
		}
		seqs = append(seqs, ids)
		if i == at && bad {
			inputs = append(inputs, single("!"))
		} else {
			inputs = append(inputs, single(texts[i]))
		}
	}
	vp.Sched(vp.Pick(1, 2))
	got, err := tk.EncodeBatch(inputs, false)
	dec := tk.DecodeBatch(seqs, false)
	vp.Sched(0)
	vp.Assert((err != nil) == bad, "batch: an error exactly if some input fails")
	vp.Assert(len(dec) == n, "decode batch: one text per sequence")
	vp.Assert(bad || len(got) == n, "batch: one encoding per input")
	for i, s := range texts {
		if !bad {
			vp.Assert(len(got[i].Ids) == len(s) && len(got[i].Overflowing) == 0, "batch: number of tokens")
			for k, id := range seqs[i] {
				vp.Assert(got[i].Ids[k] == id, "batch: tokens, in order")
			}
		}
		vp.Assert(dec[i] == tk.Decode(seqs[i], false), "decode batch: in order")
	}
	vp.Reach("many")
}
