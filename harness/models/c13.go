package models

import (
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/util"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

const penalty = 10

// segs is every segmentation of the characters of s into vocabulary entries and, where allowed, unknown characters (a
// character that is no entry itself); each with its score.
func segs(s string, score map[string]float64, unk float64, canUnk bool, acc float64, out *[]float64) {
	if s == "" {
		*out = append(*out, acc)
		return
	}
	for e := 1; e <= len(s); e++ {
		if v, ok := score[s[:e]]; ok {
			segs(s[e:], score, unk, canUnk, acc+v, out)
		}
	}
	_, n := utf8.DecodeRuneInString(s)
	if _, ok := score[s[:n]]; !ok && canUnk {
		segs(s[n:], score, unk, canUnk, acc+unk, out)
	}
}

// best asserts that the tokens segment s with the highest score.
func best(got []tokenizer.Token, s string, score map[string]float64, min float64, unkID int, fuse bool, what string) {
	var total float64
	prevUnk := false
	p := 0
	for _, t := range got {
		vp.Assert(t.Offsets[0] == p && t.Offsets[1] > p && t.Offsets[1] <= len(s), what+": offsets follow each other")
		piece := s[p:t.Offsets[1]]
		vp.Assert(t.Value == piece, what+": tokens are spelled by their characters")
		p = t.Offsets[1]
		v, known := score[piece]
		if known {
			total += v
			prevUnk = false
			continue
		}
		vp.Assert(t.Id == unkID, what+": what is not in the vocabulary is the unknown token")
		vp.Assert(!fuse || !prevUnk, what+": neighbouring unknown characters are one token")
		vp.Assert(fuse || utf8.RuneCountInString(piece) == 1, what+": every unknown character is a token of its own")
		prevUnk = true
		for _, r := range piece {
			_, known := score[string(r)]
			vp.Assert(!known, what+": characters in the vocabulary are not unknown")
			total += min - penalty
		}
	}
	vp.Assert(p == len(s), what+": offsets cover the text")
	var all []float64
	segs(s, score, min-penalty, unkID >= 0, 0, &all)
	for _, x := range all {
		vp.Assert(total >= x, what+": no segmentation has a higher score")
	}
}

// bounds: texts of 0..3 arbitrary characters of 1..2 bytes (thorough 0..4), arbitrary scores (multiples of 1/4 in -50..50)
// of all 7 entries, fused or separate unknown tokens; twice (cached).
func H_C13_best_score() {
	words := []string{"a", "b", "ab", "ba", "aab", "é", "éa"}
	vocab := []unigram.TokenScore{{Token: "<unk>", Score: -60}}
	score := map[string]float64{"<unk>": -60}
	for _, w := range words {
		x := vp.Float(-200, 200, 4)
		vocab = append(vocab, unigram.TokenScore{Token: w, Score: x})
		score[w] = x
	}
	fuse := vp.Bool()
	m, err := unigram.NewUnigramBuilder().Vocab(vocab).UnkID(0).FuseUnk(fuse).Build()
	vp.Assert(err == nil, "unigram: a well-formed model is accepted")
	s := text(vp.Pick(0, vp.Bound(3, 4)), 2)
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "unigram: tokenizes every text")
	vp.Reach("tokenized")
	best(got, s, score, -60, 0, fuse, "unigram")
	for _, t := range got {
		id, ok := m.TokenToId(t.Value)
		vp.Assert(!ok || id == t.Id, "unigram: the token's own id")
	}
	again, err := m.Tokenize(s)
	vp.Assert(err == nil, "unigram again: tokenizes every text")
	sameToks(again, got, "unigram again")
	vp.Observe("t", got)
}

// bounds: texts of 0..3 arbitrary characters, the unknown token's and three more scores arbitrary multiples of 1/4 (to 1.7e10 and -1.7e10): the penalty is relative to
// the lowest score.
func H_C13_penalty() {
	const big = 1 << 36
	a, ab, b, u := vp.Float(-big, big, 4), vp.Float(-big, big, 4), vp.Float(-big, big, 4), vp.Float(-big, big, 4)
	vocab := []unigram.TokenScore{{Token: "a", Score: a}, {Token: "<unk>", Score: u}, {Token: "xab", Score: ab}, {Token: "b", Score: b}}
	score := map[string]float64{"a": a, "<unk>": u, "xab": ab, "b": b}
	min := a
	for _, x := range []float64{ab, b, u} {
		if x < min {
			min = x
		}
	}
	m, err := unigram.New(vocab, util.NewParams(map[string]interface{}{"unk_id": 1, "fuse_unk": false}))
	vp.Assert(err == nil, "unigram: a well-formed model is accepted")
	s := letters(vp.Pick(0, 3), 'a', 'z')
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "unigram: tokenizes every text")
	vp.Reach("tokenized")
	best(got, s, score, min, 1, false, "unigram penalty")
	vp.Observe("t", got)
}

// bounds: texts of 0..3 characters of 1..3 bytes, byte tokens for all or some bytes, with or without unknown token.
func H_C13_byte_fallback() {
	const hex = "0123456789ABCDEF"
	vocab := []unigram.TokenScore{{Token: "<unk>", Score: -9}, {Token: "a", Score: -1}, {Token: "é", Score: -2}, {Token: "ab", Score: -3}}
	all := vp.Bool()
	for b := 0; b < 256; b++ {
		if all || b == 'b' || b == 0xC3 || b == 0xA9 || b == 0xA8 {
			vocab = append(vocab, unigram.TokenScore{Token: "<0x" + hex[b>>4:b>>4+1] + hex[b&15:b&15+1] + ">", Score: -8})
		}
	}
	opts := map[string]interface{}{"byte_fallback": true, "fuse_unk": vp.Bool()}
	unk := all && vp.Bool()
	if !all || unk {
		unk = true
		opts["unk_id"] = float64(0)
	}
	m, err := unigram.New(vocab, util.NewParams(opts))
	vp.Assert(err == nil, "unigram: a well-formed model is accepted")
	s := over(vp.Pick(0, vp.Bound(3, 4)), "a", "b", "é", "è", "中", "~")
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "byte fallback: tokenizes every text")
	vp.Reach("tokenized")
	back := ""
	end, start := 0, 0
	for _, t := range got {
		vp.Assert(t.Offsets[0] == end || t.Offsets[0] == start && t.Offsets[1] == end, "byte fallback: offsets follow each other")
		start, end = t.Offsets[0], t.Offsets[1]
		vp.Assert(end > start && end <= len(s), "byte fallback: offsets within the text")
		id, ok := m.TokenToId(t.Value)
		vp.Assert(ok && id == t.Id, "byte fallback: every token is in the vocabulary")
		if len(t.Value) == 6 && t.Value[:3] == "<0x" {
			n := 0
			for _, c := range []byte(t.Value[3:5]) {
				for i := range hex {
					if hex[i] == c {
						n = n<<4 | i
					}
				}
			}
			back += string([]byte{byte(n)})
		} else if t.Value == "<unk>" {
			back += "?"
		} else {
			vp.Assert(t.Value == s[start:end], "byte fallback: known tokens are spelled by their characters")
			back += t.Value
		}
	}
	vp.Assert(end == len(s), "byte fallback: offsets cover the text")
	vp.Assert(len(back) == len(s), "byte fallback: one token per byte of unknown characters")
	for i := range []byte(back) {
		vp.Assert(back[i] == s[i] || !all && back[i] == '?' && s[i] != 'b' && s[i] != 0xC3 && s[i] != 0xA9 && s[i] != 0xA8, "byte fallback: the bytes of the text")
	}
	for i, r := range s {
		if r == 'a' || r == 'é' {
			found := false
			for _, t := range got {
				found = found || t.Offsets[0] <= i && i < t.Offsets[1] && t.Value == s[t.Offsets[0]:t.Offsets[1]]
			}
			vp.Assert(found, "byte fallback: known characters keep their tokens")
		}
	}
	vp.Observe("t", got)
}

// bounds: entries of 1..30 bytes repeated after 0..2 other characters.
func H_C13_long_tokens() {
	n := vp.Pick(1, 30)
	long := ""
	for i := 0; i < n; i++ {
		long += string([]byte{byte('a' + i%2)})
	}
	m, err := unigram.New([]unigram.TokenScore{{Token: "<unk>", Score: -9}, {Token: "a", Score: -3}, {Token: "b", Score: -3}, {Token: long, Score: -1}}, util.NewParams(map[string]interface{}{"unk_id": 0}))
	vp.Assert(err == nil, "unigram: a well-formed model is accepted")
	pre := letters(vp.Pick(0, 2), 'a', 'z')
	got, err := m.Tokenize(pre + long)
	vp.Assert(err == nil && len(got) > 0, "long tokens: tokenizes every text")
	vp.Reach("tokenized")
	best(got, pre+long, map[string]float64{"<unk>": -9, "a": -3, "b": -3, long: -1}, -9, 0, true, "long tokens")
}

// bounds: texts of 0..3 arbitrary characters of 1..2 bytes, no unknown token: what cannot be segmented is an error.
func H_C13_no_unknown() {
	m, err := unigram.New([]unigram.TokenScore{{Token: "a", Score: -3}, {Token: "ab", Score: -3}, {Token: "bé", Score: -1}}, nil)
	vp.Assert(err == nil, "unigram: a well-formed model is accepted")
	s := text(vp.Pick(0, 3), 2)
	score := map[string]float64{"a": -3, "ab": -3, "bé": -1}
	var all []float64
	segs(s, score, 0, false, 0, &all)
	got, err := m.Tokenize(s)
	vp.Assert((err == nil) == (len(all) > 0), "no unknown token: exactly the texts that can be segmented are accepted")
	vp.Reach("tokenized")
	if err == nil {
		best(got, s, score, -3, -1, true, "no unknown token")
	}
	id := vp.Int(-1, 5)
	_, err = unigram.NewUnigramBuilder().Vocab([]unigram.TokenScore{{Token: "a", Score: -3}}).UnkID(id).Build()
	vp.Assert(id < 1 || err != nil, "an unknown token outside of the vocabulary is rejected")
}

// bounds: texts of 0..2 arbitrary characters of 1..4 bytes (thorough 0..3), entries of characters of every length, arbitrary
// scores of two of them; fused or separate unknown tokens.
func H_C13_wide() {
	words := []string{"a", "中", "\U0001F600", "\U0001F600a", "é中", "中\U0001F600"}
	vocab := []unigram.TokenScore{{Token: "<unk>", Score: -60}}
	score := map[string]float64{"<unk>": -60}
	for i, w := range words {
		x := float64(-3)
		if i > 3 {
			x = vp.Float(-200, 200, 4)
		}
		vocab = append(vocab, unigram.TokenScore{Token: w, Score: x})
		score[w] = x
	}
	fuse := vp.Bool()
	m, err := unigram.NewUnigramBuilder().Vocab(vocab).UnkID(0).FuseUnk(fuse).Build()
	vp.Assert(err == nil, "unigram: a well-formed model is accepted")
	s := text(vp.Pick(0, vp.Bound(2, 3)), 4)
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "unigram: tokenizes every text")
	vp.Reach("tokenized")
	best(got, s, score, -60, 0, fuse, "wide characters")
	vp.Observe("t", got)
}

// bounds: texts of 20..21 characters (thorough 40..41) that repeat 1..3 characters of 1..2 bytes, one of them unknown, with the
// one in the middle possibly another; five entries of 1..4 characters with three scores each.
func H_C13_long() {
	set := []float64{-1, -2.5, -6}
	score := map[string]float64{"a": set[vp.Pick(0, 2)], "ab": set[vp.Pick(0, 2)], "b": -3, "aéa": set[vp.Pick(0, 2)], "baba": set[vp.Pick(0, 2)], "<unk>": -8}
	var vocab []unigram.TokenScore
	for _, t := range []string{"<unk>", "a", "ab", "b", "aéa", "baba"} {
		vocab = append(vocab, unigram.TokenScore{Token: t, Score: score[t]})
	}
	fuse := vp.Bool()
	m, err := unigram.New(vocab, util.NewParams(map[string]interface{}{"unk_id": 0, "fuse_unk": fuse}))
	vp.Assert(err == nil, "unigram: a well-formed model is accepted")
	var pat []string
	for k := vp.Pick(1, 3); k > 0; k-- {
		pat = append(pat, []string{"a", "b", "é"}[vp.Pick(0, 2)])
	}
	n := vp.Pick(0, 1) + vp.Bound(20, 40)
	odd := vp.Bool()
	s := ""
	var cs []string
	for k := 0; k < n; k++ {
		c := pat[k%len(pat)]
		if odd && k == n/2 {
			c = "b"
		}
		s += c
		cs = append(cs, c)
	}
	// the best score of the first i characters
	top := []float64{0}
	for i := 1; i <= n; i++ {
		have := false
		var v float64
		t := ""
		for j := i - 1; j >= 0 && j >= i-4; j-- {
			t = cs[j] + t
			x, ok := score[t]
			if !ok && j == i-1 {
				x, ok = -8-penalty, true
			}
			if ok && (!have || top[j]+x > v) {
				have, v = true, top[j]+x
			}
		}
		top = append(top, v)
	}
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "long texts: tokenized")
	vp.Reach("tokenized")
	total, p, prev := 0.0, 0, false
	for _, t := range got {
		vp.Assert(t.Offsets[0] == p && t.Offsets[1] > p && t.Value == s[p:t.Offsets[1]], "long texts: tokens follow each other")
		p = t.Offsets[1]
		x, ok := score[t.Value]
		if ok {
			id, _ := m.TokenToId(t.Value)
			vp.Assert(t.Id == id, "long texts: id of a token")
		} else {
			vp.Assert(t.Id == 0 && (fuse || t.Value == "é") && !(fuse && prev), "long texts: unknown characters")
			x = float64(utf8.RuneCountInString(t.Value)) * (-8 - penalty)
		}
		prev = !ok
		total += x
	}
	vp.Assert(p == len(s) && total == top[n], "long texts: the highest score")
}
