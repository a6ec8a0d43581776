package tok

import (
	"errors"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/util"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

var errFault = errors.New("fault")

// fault decides which of the calls of the components fails (at < 0: none).
type fault struct {
	at  int
	hit bool
}

func (f *fault) fail() bool {
	f.at--
	if f.at == -1 {
		f.hit = true
		return true
	}
	return false
}

// the components of a tokenizer, each of which may have a fault
type faultNorm struct{ f *fault }

func (n faultNorm) Normalize(s *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	if n.f.fail() {
		return nil, errFault
	}
	return s.Lowercase(), nil
}

type faultPretok struct{ f *fault }

func (p faultPretok) PreTokenize(s *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	if p.f.fail() {
		return nil, errFault
	}
	return spaces{}.PreTokenize(s)
}

type faultModel struct {
	model
	f *fault
}

func (m faultModel) Tokenize(s string) ([]tokenizer.Token, error) {
	if m.f.fail() {
		return nil, errFault
	}
	return m.model.Tokenize(s)
}

// faulty is a tokenizer with the three components and an added token.
func faulty(n, p, m *fault) *tokenizer.Tokenizer {
	tk := tokenizer.NewTokenizer(faultModel{model{vocab: map[string]int{"a": 0}}, m})
	tk.WithPreTokenizer(faultPretok{p})
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("#", false)})
	tk.WithNormalizer(faultNorm{n})
	return tk
}

// bounds: the k-th call (k = 0..3, or none) of the normalizer, of the pre-tokenizer or of the model fails; single texts, pairs, lists
// of words, of two pieces of 0..2 characters with or without an added token between them, by every encoding method; the same tokenizer
// then encodes the input again.
func H_C28_component() {
	at := vp.Pick(-1, 3)
	f, none := &fault{at: at}, &fault{at: -1}
	var tk *tokenizer.Tokenizer
	which := vp.Pick(0, 2)
	switch which {
	case 0:
		tk = faulty(f, none, none)
	case 1:
		tk = faulty(none, f, none)
	case 2:
		tk = faulty(none, none, f)
	}
	clean := faulty(none, none, none)
	a, b := over(vp.Pick(0, 2), "a", "X"), over(vp.Pick(0, 1), "b", " ")
	sep := []string{" ", "#"}[vp.Pick(0, 1)]
	var in tokenizer.EncodeInput
	method := vp.Pick(0, 4)
	var enc func(t *tokenizer.Tokenizer) (*tokenizer.Encoding, error)
	switch method {
	case 0, 1, 2:
		switch method {
		case 0:
			in = single(a + sep + b)
		case 1:
			in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(a), tokenizer.NewInputSequence(b+sep+b))
		case 2:
			in = tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence([]string{a, b + sep}))
		}
		enc = func(t *tokenizer.Tokenizer) (*tokenizer.Encoding, error) { return t.Encode(in, true) }
		if vp.Pick(0, 1) == 1 {
			enc = func(t *tokenizer.Tokenizer) (*tokenizer.Encoding, error) { return t.EncodeCharOffsets(in, true) }
		}
	case 3:
		enc = func(t *tokenizer.Tokenizer) (*tokenizer.Encoding, error) { return t.EncodePair(a, sep+b) }
	case 4:
		enc = func(t *tokenizer.Tokenizer) (*tokenizer.Encoding, error) {
			toks, err := t.Tokenize(a + sep + b)
			vp.Assert(err == nil || toks == nil, "no tokens with an error")
			e := tokenizer.DefaultEncoding()
			e.Tokens = toks
			if err != nil {
				e = nil
			}
			return e, err
		}
	}
	want, err := enc(clean)
	vp.Assert(err == nil, "no failure, no error")
	got, err := enc(tk)
	vp.Assert((err != nil) == f.hit, "an error exactly if a component fails")
	if err != nil {
		vp.Assert(got == nil, "no encoding with an error")
		vp.Assert(errors.Is(err, errFault), "the error is that of the component")
		vp.Reach("failed")
	} else {
		eqEnc(got, want, "no failure")
		vp.Reach("encoded")
	}
	f.at = -1
	got, err = enc(tk)
	vp.Assert(err == nil, "no error after the failure")
	eqEnc(got, want, "after the failure")
}

// eqEnc is for encodings that may have only some of the arrays.
func eqEnc(a, b *tokenizer.Encoding, what string) {
	vp.Assert(len(a.Tokens) == len(b.Tokens) && len(a.Ids) == len(b.Ids) && len(a.Offsets) == len(b.Offsets) && len(a.Words) == len(b.Words), what+": number of tokens")
	for i := range a.Tokens {
		vp.Assert(a.Tokens[i] == b.Tokens[i], what+": tokens")
	}
	for i := range a.Ids {
		vp.Assert(vp.And(a.Ids[i] == b.Ids[i], a.Offsets[i][0] == b.Offsets[i][0], a.Offsets[i][1] == b.Offsets[i][1], a.Words[i] == b.Words[i]), what+": ids")
	}
}

// bounds: BPE (with a cache, without, or with dropout), WordPiece, WordLevel and Unigram models that know the letters a and b, whose
// unknown token is unset, set but not in the vocabulary, or in the vocabulary; words of 0..4 arbitrary ASCII characters but # (thorough 6), longer than the maximum of WordPiece or not.
func H_C28_unknown() {
	s := vp.ASCII(vp.Pick(0, vp.Bound(4, 6)), 1, 0x7f)
	unk := vp.Pick(0, 2) // unset, missing, present
	vocab := map[string]int{"a": 1, "b": 2, "##a": 3, "##b": 4}
	if unk == 2 {
		vocab["?"] = 0
	}
	known := true
	for i := 0; i < len(s); i++ {
		known = vp.And(known, vp.Or(s[i] == 'a', s[i] == 'b'))
	}
	var m tokenizer.Model
	kind := vp.Pick(0, 5)
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] != '#' && (s[i] != '?' || kind < 5)) // which are in tokens
	}
	switch kind {
	case 0, 1, 2:
		b := bpe.NewBpeBuilder()
		b.VocabAndMerges(vocab, bpe.Merges{})
		if unk > 0 {
			b.UnkToken("?")
		}
		if kind == 2 {
			b.Dropout(0.5)
		}
		bm, err := b.Build()
		vp.Assert(err == nil, "builds")
		if kind == 1 {
			bm.Cache = nil
		}
		m = bm
	case 3:
		vp.Assume(unk != 0)
		long := 100
		if vp.Pick(0, 1) == 1 {
			long = 2
			known = vp.And(known, len(s) <= 2)
		}
		wm, err := wordpiece.New(vocab, util.NewParams(map[string]interface{}{"unk_token": "?", "max_input_chars_per_word": long}))
		vp.Assert(err == nil, "builds")
		m = wm
	case 4:
		vp.Assume(unk != 0)
		wl, err := wordlevel.New(vocab, "?")
		vp.Assert(err == nil, "builds")
		known = vp.Or(len(s) == 0, s == "a", s == "b")
		m = wl
	case 5:
		u := unigram.NewUnigramBuilder().Vocab([]unigram.TokenScore{{Token: "?", Score: -9}, {Token: "a", Score: -1}, {Token: "b", Score: -2}})
		vp.Assume(unk != 1)
		if unk == 2 {
			u = u.UnkID(0)
		}
		um, err := u.Build()
		vp.Assert(err == nil, "builds")
		m = um
	}
	tk := tokenizer.NewTokenizer(m)
	for round := 0; round < 2; round++ { // the second one may come from a cache
		e, err := tk.EncodeSingle(s)
		vp.Assert((err != nil) == !vp.Or(known, unk == 2), "an error exactly if a character cannot be represented")
		vp.Assert((e == nil) == (err != nil), "an encoding or an error")
		if err != nil {
			vp.Reach("unknown")
		} else {
			vp.Reach("known")
		}
	}
}

// bounds: single texts and pairs of 0..4 tokens each (thorough 0..6), every strategy, maximum lengths 1..6 (8) above the number of special tokens
// (0 or 2, 3 for pairs), no stride.
func H_C28_truncation() {
	n := vp.Bound(4, 6)
	pair := vp.Pick(0, 1) == 1
	n1, n2 := vp.Pick(0, n), 0
	words := func(k int) string {
		s := ""
		for i := 0; i < k; i++ {
			s += "a"
		}
		return s
	}
	in := single(words(n1))
	if pair {
		n2 = vp.Pick(0, n)
		in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(words(n1)), tokenizer.NewInputSequence(words(n2)))
	}
	tk := tokenizer.NewTokenizer(model{vocab: map[string]int{"a": 0}})
	added := 0
	special := vp.Pick(0, 1) == 1
	if special {
		tk.WithPostProcessor(processor.NewBertProcessing(processor.PostToken{Value: "]", Id: 8}, processor.PostToken{Value: "[", Id: 9}))
		added = 2
		if pair {
			added = 3
		}
	}
	max := vp.Pick(1, vp.Bound(6, 8))
	strategy := []tokenizer.TruncationStrategy{tokenizer.LongestFirst, tokenizer.OnlyFirst, tokenizer.OnlySecond}[vp.Pick(0, 2)]
	if strategy == tokenizer.LongestFirst {
		vp.Assume(max > 1 || !pair) // both sequences keep a token: see K_C05_stride
		vp.Assume(n1 > 0 && (n2 > 0 || !pair))
	}
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: max + added, Strategy: strategy})
	remove := n1 + n2 - max
	fails := false
	switch strategy {
	case tokenizer.OnlyFirst:
		fails = remove > 0 && n1 <= remove
	case tokenizer.OnlySecond:
		fails = remove > 0 && (!pair || n2 <= remove)
	}
	var e *tokenizer.Encoding
	var err error
	if vp.Pick(0, 1) == 0 {
		e, err = tk.Encode(in, true)
	} else {
		e, err = tk.EncodeCharOffsets(in, true)
	}
	vp.Assert((err != nil) == fails, "an error exactly if the truncation cannot be done")
	vp.Assert((e == nil) == fails, "an encoding or an error")
	if !fails {
		if remove < 0 {
			remove = 0
		}
		vp.Assert(len(e.Ids) == n1+n2-remove+added, "number of tokens")
		vp.Reach("truncated")
		return
	}
	vp.Reach("failed")
}

// bounds: inputs that are nil or of another type than the two of the package, by both methods and in a batch.
func H_C28_input() {
	tk := tokenizer.NewTokenizer(model{vocab: map[string]int{"a": 0}})
	in := []tokenizer.EncodeInput{nil, &tokenizer.Single{Sentence: tokenizer.NewInputSequence("a")}, &tokenizer.Dual{}}[vp.Pick(0, 2)]
	var err error
	switch vp.Pick(0, 2) {
	case 0:
		_, err = tk.Encode(in, vp.Pick(0, 1) == 1)
	case 1:
		_, err = tk.EncodeCharOffsets(in, false)
	case 2:
		_, err = tk.EncodeBatch([]tokenizer.EncodeInput{single("a"), in}, false)
	}
	vp.Assert(err != nil, "an unknown kind of input is an error")
	vp.Reach("rejected")
}

// the components fail for texts with their character
type rejNorm struct{}

func (rejNorm) Normalize(s *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	if s.GetNormalized() == "n" {
		return nil, errFault
	}
	return s, nil
}

type rejPretok struct{}

func (rejPretok) PreTokenize(s *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	if sp := s.GetSplits(normalizer.OriginalTarget, tokenizer.Byte); len(sp) > 0 && sp[0].Value == "p" {
		return nil, errFault
	}
	return s, nil
}

type rejModel struct{ model }

func (m rejModel) Tokenize(s string) ([]tokenizer.Token, error) {
	if s == "m" {
		return nil, errFault
	}
	return m.model.Tokenize(s)
}

// bounds: batches of 1..3 (thorough 4) texts that are fine, rejected by the normalizer, the pre-tokenizer or the model, or too short for the
// truncation, padded to the longest or not; every schedule.
func H_C28_batch() {
	tk := tokenizer.NewTokenizer(rejModel{model{vocab: map[string]int{"a": 0}}})
	tk.WithNormalizer(rejNorm{})
	tk.WithPreTokenizer(rejPretok{})
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 2, Strategy: tokenizer.OnlyFirst})
	if vp.Pick(0, 1) == 1 {
		tk.WithPadding(&tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest()), Direction: tokenizer.Right, PadId: 5, PadToken: "_"})
	}
	var inputs []tokenizer.EncodeInput
	var lens []int
	bad, longest := false, 0
	for i, n := 0, vp.Pick(1, vp.Bound(3, 4)); i < n; i++ {
		s := []string{"a", "aaa", "n", "p", "m", "t"}[vp.Pick(0, 5)]
		in, l := single(s), 1
		switch s {
		case "n", "p", "m":
			bad = true
		case "aaa":
			l = 2
		case "t": // nothing of the first sequence could remain
			in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence("a"), tokenizer.NewInputSequence("bbb"))
			bad = true
		}
		if l > longest {
			longest = l
		}
		inputs, lens = append(inputs, in), append(lens, l)
	}
	got, err := tk.EncodeBatch(inputs, false)
	vp.Assert((err != nil) == bad, "an error exactly if some input fails")
	if bad {
		vp.Assert(got == nil, "no encodings with an error")
		vp.Reach("failed")
		return
	}
	vp.Assert(len(got) == len(inputs), "an encoding per input")
	for i := range got {
		l := lens[i]
		if tk.GetPadding() != nil {
			l = longest
		}
		vp.Assert(len(got[i].Ids) == l, "number of tokens")
	}
	vp.Reach("encoded")
}
