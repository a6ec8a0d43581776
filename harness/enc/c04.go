package enc

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// valid builds an encoding the way the pipeline does: special tokens (word -1, offsets 0,0), then words in order with
// 1..n consecutive tokens each and increasing offsets, optionally a second sequence, optionally padding.
func valid(n int) *E {
	e := tokenizer.DefaultEncoding()
	word, pos := -1, 0
	for i := 0; i < n; i++ {
		k := vp.Int(0, 2) // 0 special, 1 new word, 2 continue the previous token's word
		special := k == 0
		cont := vp.And(k == 2, i > 0 && true)
		if i > 0 {
			cont = vp.And(cont, e.Words[i-1] >= 0)
		} else {
			cont = false
		}
		word = vp.IteInt(vp.Or(special, cont), word, word+1)
		start := pos + vp.Int(0, 2)
		end := start + vp.Int(1, 3)
		e.Ids = append(e.Ids, vp.Int(0, 100))
		e.TypeIds = append(e.TypeIds, 0)
		e.Tokens = append(e.Tokens, "t")
		e.Words = append(e.Words, vp.IteInt(special, -1, word))
		e.Offsets = append(e.Offsets, []int{vp.IteInt(special, 0, start), vp.IteInt(special, 0, end)})
		e.SpecialTokenMask = append(e.SpecialTokenMask, vp.IteInt(special, 1, 0))
		e.AttentionMask = append(e.AttentionMask, 1)
		pos = vp.IteInt(special, pos, end)
	}
	return e
}

// bounds: encodings of 0..7 tokens (thorough 0..10) mixing special tokens and words of any number of tokens; every word
// index from -1 to n+1.
func H_C04_words() {
	n := vp.Pick(0, vp.Bound(7, 10))
	e := valid(n)
	w := vp.Int(0, n+1)
	start, end, ok := e.Word2Tokens(w)
	has := false
	for _, x := range e.Words {
		has = vp.Or(has, x == w)
	}
	vp.Assert(ok == has, "a word is found exactly when some token belongs to it")
	chars, cok := e.Word2Chars(w)
	vp.Assert(cok == has, "the characters of a word are found exactly when some token belongs to it")
	if !ok {
		vp.Reach("no such word")
		return
	}
	vp.Reach("word")
	vp.Assert(0 <= start && start < end && end <= n, "the token range of a word is a non-empty range of tokens")
	for i := 0; i < n; i++ {
		vp.Assert((e.Words[i] == w) == vp.And(start <= i, i < end), "the token range of a word is exactly its tokens")
	}
	vp.Assert(len(chars) == 2 && chars[0] == e.Offsets[start][0] && chars[1] == e.Offsets[end-1][1], "the characters of a word span its tokens")
	vp.Observe("w", start, end, chars)
}

// bounds: encodings of 0..7 tokens (thorough 0..10), every token index in -1..n+1 and character position in 0..30.
func H_C04_tokens() {
	n := vp.Pick(0, vp.Bound(7, 10))
	e := valid(n)
	t := vp.Pick(-1, n+1)
	in := t >= 0 && t < n
	c, ok := e.Token2Chars(t)
	vp.Assert(ok == in, "a token has characters exactly when it exists")
	if ok {
		vp.Assert(len(c) == 2 && c[0] == e.Offsets[t][0] && c[1] == e.Offsets[t][1], "the characters of a token are its offsets")
	}
	w, ok := e.Token2Word(t)
	vp.Assert(ok == in, "a token has a word index exactly when it exists")
	if ok {
		vp.Assert(w == e.Words[t], "the word of a token")
	}
	s, ok := e.Token2Sequence(t)
	if t >= 0 {
		vp.Assert(ok == in, "a token has a sequence exactly when it exists")
		if ok {
			vp.Assert(s == 0, "a token of a single sequence belongs to sequence 0")
		}
	}
	vp.Reach("tokens")
}

// bounds: encodings of 0..3 tokens with any words (-1..2, also words of several runs of tokens) and any offsets (0..4), every
// token index and character position.
func H_C04_any_tokens() {
	n := vp.Pick(0, 3)
	e := tokenizer.DefaultEncoding()
	for i := 0; i < n; i++ {
		a := vp.Int(0, 4)
		e.Ids = append(e.Ids, i)
		e.TypeIds = append(e.TypeIds, 0)
		e.Tokens = append(e.Tokens, "t")
		e.Words = append(e.Words, vp.Int(-1, 2))
		e.Offsets = append(e.Offsets, []int{a, a + vp.Int(0, 2)})
		e.SpecialTokenMask = append(e.SpecialTokenMask, 0)
		e.AttentionMask = append(e.AttentionMask, 1)
	}
	t, p := vp.Pick(-1, n), vp.Int(-1, 7)
	in := t >= 0 && t < n
	w, ok := e.Token2Word(t)
	vp.Assert(ok == in, "any tokens: a token has a word index exactly when it exists")
	c, cok := e.Token2Chars(t)
	vp.Assert(cok == in, "any tokens: a token has characters exactly when it exists")
	if in {
		vp.Assert(w == e.Words[t], "any tokens: the word of a token")
		vp.Assert(len(c) == 2 && c[0] == e.Offsets[t][0] && c[1] == e.Offsets[t][1], "any tokens: the characters of a token are its offsets")
	}
	has := false
	for _, o := range e.Offsets {
		has = vp.Or(has, vp.And(o[0] <= p, p < o[1]))
	}
	k, ok := e.Char2Token(p)
	cw, wok := e.Char2Word(p)
	vp.Assert(ok == has && wok == has, "any tokens: a token and a word are found exactly when a token covers the character")
	vp.Reach("tokens")
	if ok {
		vp.Assert(0 <= k && k < n && e.Offsets[k][0] <= p && p < e.Offsets[k][1], "any tokens: the token found covers the character")
		vp.Assert(cw == e.Words[k], "any tokens: the word found is the token's word")
	}
}

// bounds: encodings of 0..5 tokens (thorough 0..7); character positions 0..30.
func H_C04_chars() {
	n := vp.Pick(0, vp.Bound(5, 7))
	e := valid(n)
	p := vp.Int(0, 30)
	t, ok := e.Char2Token(p)
	has := false
	for _, o := range e.Offsets {
		has = vp.Or(has, vp.And(o[0] <= p, p < o[1]))
	}
	vp.Assert(ok == has, "a token is found exactly when one covers the character")
	w, wok := e.Char2Word(p)
	vp.Assert(wok == has, "a word is found exactly when a token covers the character")
	if !ok {
		vp.Reach("uncovered")
		return
	}
	vp.Reach("covered")
	vp.Assert(0 <= t && t < n, "token index in range")
	vp.Assert(vp.And(e.Offsets[t][0] <= p, p < e.Offsets[t][1]), "the token found covers the character")
	vp.Assert(w == e.Words[t], "the word found is the token's word")
	vp.Observe("t", t, w)
}

// bounds: two sequences of 0..4 tokens (thorough 0..5), with or without surrounding special tokens.
func H_C04_sequences() {
	m := vp.Bound(4, 5)
	pair := vp.Bool()
	special := vp.Bool()
	n1, n2 := vp.Pick(0, m), vp.Pick(0, m)
	a := valid(n1)
	set := vp.Bool() || pair
	if set {
		a.SetSequenceIds(0)
	}
	var want []int
	r := a
	if special {
		r = valid(1)
		want = append(want, -1)
		r = r.MergeWith(a, false)
	}
	for i := 0; i < n1; i++ {
		want = append(want, 0)
	}
	if pair {
		vp.Assume(n1 > 0 && n2 > 0)
		b := valid(n2)
		b.SetSequenceIds(1)
		r = r.MergeWith(b, false)
		for i := 0; i < n2; i++ {
			want = append(want, 1)
		}
	}
	vp.Assert(len(r.Ids) == len(want), "number of tokens")
	if pair {
		vp.Assert(r.NSequences() == 2, "two sequences")
	} else {
		vp.Assert(r.NSequences() == 1, "one sequence")
	}
	ids := r.GetSequenceIds()
	vp.Assert(len(ids) == len(want), "a sequence id for every token")
	for i, s := range want {
		got, ok := r.Token2Sequence(i)
		if s >= 0 {
			vp.Assert(ok && got == s, "the sequence of a token")
			vp.Assert(ids[i] == s, "the sequence ids of the tokens")
		} else if len(r.SequenceRanges) > 0 {
			vp.Assert(!ok, "a special token belongs to no sequence")
		}
	}
	if set && n1 > 0 {
		rg, err := r.SequenceRange(0)
		vp.Assert(err == nil, "the range of sequence 0 exists")
		vp.Assert(len(rg) == n1, "the range of sequence 0 covers its tokens")
		d := 0
		if special {
			d = 1
		}
		for i, x := range rg {
			vp.Assert(x == d+i, "the range of sequence 0 is its tokens")
		}
	}
	_, err := r.SequenceRange(2)
	vp.Assert(err != nil, "no range for a sequence that does not exist")
	vp.Reach("sequences")
	vp.Observe("ids", ids)
}

// what a token of an encoding belongs to
type lk struct{ word, seq, o0, o1 int }

// single builds a sequence of n tokens as the pipeline does: words in order, each of one or more tokens, or none (-1).
func single(n, typ int) (*E, []lk) {
	e := tokenizer.DefaultEncoding()
	var ls []lk
	word, pos := -1, 0
	for i := 0; i < n; i++ {
		cont := vp.And(i > 0, vp.Bool())
		word = vp.IteInt(cont, word, word+1)
		l := lk{word: word, seq: typ, o0: pos + vp.Int(0, 1)}
		l.o1 = l.o0 + vp.Int(1, 2)
		pos = l.o1
		ls = append(ls, l)
		e.Ids = append(e.Ids, 10*typ+i)
		e.TypeIds = append(e.TypeIds, typ)
		e.Tokens = append(e.Tokens, "t")
		e.Words = append(e.Words, l.word)
		e.Offsets = append(e.Offsets, []int{l.o0, l.o1})
		e.SpecialTokenMask = append(e.SpecialTokenMask, 0)
		e.AttentionMask = append(e.AttentionMask, 1)
	}
	return e, ls
}

// bounds: one or two sequences of 0..4 tokens (thorough 0..5), processed by the tokenizer without a post-processor, with
// or without a special token in front and behind, padded left or right by 0..2 tokens; every token, word and position.
func H_C04_pipeline() {
	m := vp.Bound(4, 5)
	n1, n2 := vp.Pick(0, m), vp.Pick(-1, m-1)
	a, ls := single(n1, 0)
	var b *E
	if n2 >= 0 {
		var bs []lk
		b, bs = single(n2, 1)
		ls = append(ls, bs...)
	}
	t := tokenizer.NewTokenizer(nil)
	e := t.PostProcess(a, b, false)
	if vp.Bool() {
		sp := func() *E {
			return tokenizer.NewEncoding([]int{1}, []int{0}, []string{"s"}, [][]int{{0, 0}}, []int{1}, []int{1}, nil, tokenizer.WithWordsEncodingOpt([]int{-1}))
		}
		e = sp().MergeWith(e, false)
		e = e.MergeWith(sp(), false)
		ls = append([]lk{{word: -1, seq: -1}}, ls...)
		ls = append(ls, lk{word: -1, seq: -1})
	}
	if pad := vp.Pick(0, 2); pad > 0 {
		dir := tokenizer.PaddingDirection(vp.Pick(0, 1))
		e = e.Pad(len(ls)+pad, 0, 0, "p", dir)
		for i := 0; i < pad; i++ {
			if dir == tokenizer.Left {
				ls = append([]lk{{word: -1, seq: -1}}, ls...)
			} else {
				ls = append(ls, lk{word: -1, seq: -1})
			}
		}
	}
	vp.Assert(len(e.Ids) == len(ls), "number of tokens")
	ids := e.GetSequenceIds()
	vp.Assert(len(ids) == len(ls), "a sequence id for every token")
	for i, l := range ls {
		if s, ok := e.Token2Sequence(i); l.seq >= 0 {
			vp.Assert(ok && s == l.seq, "the sequence of a token")
			vp.Assert(ids[i] == l.seq, "the sequence ids of the tokens")
		} else if n2 >= 0 && n1+n2 > 0 {
			vp.Assert(!ok, "special and padding tokens belong to no sequence")
		}
		w, ok := e.Token2Word(i)
		vp.Assert(ok && w == l.word, "the word of a token")
		c, ok := e.Token2Chars(i)
		vp.Assert(ok && c[0] == l.o0 && c[1] == l.o1, "the characters of a token")
	}
	_, ok := e.Token2Sequence(-1)
	vp.Assert(!ok, "no sequence for a token that does not exist")
	// a word that both sequences have is found in the first
	w := vp.Pick(0, m)
	first, last := -1, -1
	for s := 0; s < 2; s++ {
		for i, l := range ls {
			if l.seq == s && l.word == w && (first < 0 || ls[first].seq == s) {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
	}
	from, to, ok := e.Word2Tokens(w)
	vp.Assert(ok == (first >= 0), "a word is found exactly when some token belongs to it")
	if ok {
		vp.Assert(from == first && to == last+1, "a word maps to exactly its tokens")
		c, cok := e.Word2Chars(w)
		vp.Assert(cok && c[0] == ls[first].o0 && c[1] == ls[last].o1, "a word spans the characters of its tokens")
		vp.Reach("word")
	}
	vp.Reach("pipeline")
	vp.Observe("ids", ids)
}
