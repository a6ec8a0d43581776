package tok

import (
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

func space(b byte) bool { return vp.Or(b == ' ', b == '\t', b == '\n', b == '\f', b == '\r') }
func word(b byte) bool {
	return vp.Or(b == '_', vp.And(b >= '0', b <= '9'), vp.And(b >= 'a', b <= 'z'), vp.And(b >= 'A', b <= 'Z'))
}

type piece struct {
	a, b int
	id   int // -1: text
}

// extract is what the tokens (first added first) match in s: from left to right, of overlapping occurrences the one of the
// token added first.
func extract(s string, toks []tokenizer.AddedToken, ids []int, contents []string) (o []piece) {
	type occ struct{ a, b, k int }
	var occs []occ
	for k, t := range toks {
		c := contents[k]
		for p := 0; p+len(c) <= len(s); {
			if s[p:p+len(c)] != c {
				p++
				continue
			}
			a, b := p, p+len(c)
			if t.SingleWord && (word(c[0]) && a > 0 && word(s[a-1]) || word(c[len(c)-1]) && b < len(s) && word(s[b])) {
				p++
				continue
			}
			lim := 0
			for _, x := range occs {
				if x.k == k {
					lim = x.b
				}
			}
			for t.LStrip && a > lim && space(s[a-1]) {
				a--
			}
			for t.RStrip && b < len(s) && space(s[b]) {
				b++
			}
			occs = append(occs, occ{a, b, k})
			p = b
		}
	}
	end := 0
	for {
		first := -1
		for i, x := range occs {
			if x.a >= end && (first < 0 || x.a < occs[first].a || x.a == occs[first].a && x.k < occs[first].k) {
				first = i
			}
		}
		if first < 0 {
			break
		}
		pick := occs[first]
		for _, x := range occs {
			if x.a >= end && x.a < occs[first].b && x.k < pick.k {
				pick = x
			}
		}
		// of several occurrences of that token the leftmost
		for _, x := range occs {
			if x.k == pick.k && x.a >= end && x.a < pick.a {
				pick = x
			}
		}
		if pick.a > end {
			o = append(o, piece{end, pick.a, -1})
		}
		o = append(o, piece{pick.a, pick.b, ids[pick.k]})
		end = pick.b
	}
	if end < len(s) {
		o = append(o, piece{end, len(s), -1})
	}
	return o
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] += byte(vp.IteInt(vp.And(b[i] >= 'A', b[i] <= 'Z'), 32, 0))
	}
	return string(b)
}

// check extracts the tokens from ASCII text s and compares with the definition.
func check(t *tokenizer.AddedVocabulary, m tokenizer.Model, toks []tokenizer.AddedToken, lc bool, s string, what string) {
	var n normalizer.Normalizer
	if lc {
		n = normalizer.Lowercase()
	}
	got := t.ExtractAndNormalize(s, n).GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	vp.Reach("extracted")
	var plain, norm []tokenizer.AddedToken
	var plainIds, normIds []int
	var plainC, normC []string
	for _, k := range toks {
		id, ok := t.TokenToId(k.Content, m)
		vp.Assert(ok, what+": every added token has an id")
		if k.Normalized {
			norm, normIds = append(norm, k), append(normIds, id)
			c := k.Content
			if lc {
				c = lower(c)
			}
			normC = append(normC, c)
		} else {
			plain, plainIds, plainC = append(plain, k), append(plainIds, id), append(plainC, k.Content)
		}
	}
	var want []piece
	for _, p := range extract(s, plain, plainIds, plainC) {
		if p.id >= 0 {
			want = append(want, p)
			continue
		}
		sub := s[p.a:p.b]
		if lc {
			sub = lower(sub)
		}
		for _, q := range extract(sub, norm, normIds, normC) {
			want = append(want, piece{p.a + q.a, p.a + q.b, q.id})
		}
	}
	vp.Assert(len(got) == len(want), what+": number of pieces")
	for i, w := range want {
		g := got[i]
		vp.Assert(g.Offsets[0] == w.a && g.Offsets[1] == w.b, what+": the pieces cover the text in order")
		v := s[w.a:w.b]
		if lc {
			plainTok := false
			for _, id := range plainIds {
				plainTok = plainTok || id == w.id
			}
			if !plainTok {
				v = lower(v)
			}
		}
		vp.Assert(g.Value == v, what+": the text of a piece")
		if w.id < 0 {
			vp.Assert(g.Tokens == nil, what+": ordinary text has no tokens yet")
			continue
		}
		vp.Assert(len(g.Tokens) == 1 && g.Tokens[0].Id == w.id, what+": an added token becomes one token with its id")
		o := g.Tokens[0].Offsets
		vp.Assert(o[0] == 0 && o[1] == w.b-w.a, what+": an added token covers its piece")
	}
	vp.Observe("x", len(got))
}

func add(av *tokenizer.AddedVocabulary, m tokenizer.Model, special bool, toks []tokenizer.AddedToken, n normalizer.Normalizer) {
	if special {
		av.AddSpecialTokens(toks, m, n)
	} else {
		av.AddTokens(toks, m, n)
	}
}

// bounds: one added token out of 4 contents with every combination of options, ASCII texts of 0..4 characters (thorough 5).
func H_C15_options() {
	m := model{map[string]int{"q": 0}}
	av := tokenizer.NewAddedVocabulary()
	c := []string{"a", "aB", "[a", "."}[vp.Pick(0, 3)]
	special, lc := vp.Bool(), vp.Bool()
	var n normalizer.Normalizer
	if lc {
		n = normalizer.Lowercase()
	}
	l, r, w, norm := vp.Bool(), vp.Bool(), vp.Bool(), !special
	t := tokenizer.NewAddedToken(c, special, tokenizer.WithLStrip(l), tokenizer.WithRStrip(r), tokenizer.WithSingleWord(w))
	if vp.Bool() {
		norm = !norm
		t = t.SetNormalized(norm)
	}
	vp.Assert(vp.And(t.LStrip == l, t.RStrip == r, t.SingleWord == w, t.Normalized == norm), "added token: has the options given")
	set := tokenizer.NewAddedToken(c, special, tokenizer.WithNormalized(norm)).SetLStrip(l).SetRStrip(r).SetSingleWord(w)
	vp.Assert(vp.And(set.LStrip == l, set.RStrip == r, set.SingleWord == w, set.Normalized == norm, set.Content == c), "added token: has the options set")
	add(&av, m, special, []tokenizer.AddedToken{t}, n)
	check(&av, m, []tokenizer.AddedToken{t}, lc, vp.ASCII(vp.Pick(0, vp.Bound(4, 5)), 0, 127), "added token")
}

// bounds: 2..3 added tokens out of 4 overlapping contents, special or not, in every order, ASCII texts of 0..4 characters
// (thorough 5).
func H_C15_overlaps() {
	m := model{map[string]int{"q": 0}}
	av := tokenizer.NewAddedVocabulary()
	contents := []string{"a", "ab", "bc", "c"}
	var specials, others []tokenizer.AddedToken
	used := map[string]bool{}
	for k := vp.Pick(2, 3); k > 0; k-- {
		c := contents[vp.Pick(0, len(contents)-1)]
		vp.Assume(!used[c])
		used[c] = true
		sp := vp.Bool()
		t := tokenizer.NewAddedToken(c, sp)
		if vp.Bound(0, 1) == 1 && vp.Bool() {
			t = t.SetNormalized(false)
		}
		add(&av, m, sp, []tokenizer.AddedToken{t}, nil)
		if sp {
			specials = append(specials, t)
		} else {
			others = append(others, t)
		}
	}
	check(&av, m, append(specials, others...), false, vp.ASCII(vp.Pick(0, vp.Bound(4, 5)), 'a', 'd'), "overlapping tokens")
}

// bounds: 3 of 5 overlapping added tokens in every order; texts with 12..40 occurrences in front of 0..1 characters (thorough 2) out of 4, and behind them.
func H_C15_many() {
	m := model{map[string]int{"q": 0}}
	av := tokenizer.NewAddedVocabulary()
	contents := []string{"a", "ab", "bc", "cd", "abc"}
	var toks []tokenizer.AddedToken
	used := map[string]bool{}
	for len(toks) < 3 {
		c := contents[vp.Pick(0, len(contents)-1)]
		vp.Assume(!used[c])
		used[c] = true
		toks = append(toks, tokenizer.NewAddedToken(c, false))
	}
	add(&av, m, false, toks, nil)
	fill := strings.Repeat([]string{"abcd", "aab", "bcd", "abc "}[vp.Pick(0, 3)], vp.Pick(0, 1)*7+6)
	s := over(vp.Pick(0, vp.Bound(1, 2)), "a", "b", "c", "d")
	if vp.Bool() {
		s = fill + s
	} else {
		s += fill
	}
	check(&av, m, toks, false, s, "many tokens")
}

// bounds: two tokens that strip whitespace on their sides, ASCII texts of 0..5 characters out of 4.
func H_C15_strips() {
	m := model{map[string]int{"q": 0}}
	av := tokenizer.NewAddedVocabulary()
	sp := vp.Bool()
	ts := []tokenizer.AddedToken{
		tokenizer.NewAddedToken("a", sp, tokenizer.WithLStrip(vp.Bool()), tokenizer.WithRStrip(vp.Bool())),
		tokenizer.NewAddedToken("b", sp, tokenizer.WithLStrip(vp.Bool()), tokenizer.WithRStrip(vp.Bool())),
	}
	add(&av, m, sp, ts, nil)
	check(&av, m, ts, false, over(vp.Pick(0, vp.Bound(4, 5)), "a", "b", " ", "x"), "stripping tokens")
}

// bounds: one special token amid arbitrary text of 0..3 characters of 1..3 bytes on either side: it is always found, and
// the rest stays text.
func H_C15_any_text() {
	m := model{map[string]int{"q": 0}}
	av := tokenizer.NewAddedVocabulary()
	t := tokenizer.NewAddedToken("<é>", true)
	add(&av, m, true, []tokenizer.AddedToken{t, tokenizer.NewAddedToken("</s>", true)}, nil)
	a, b := text(vp.Pick(0, 2), 3), text(vp.Pick(0, vp.Bound(1, 2)), 3)
	s := a + "<é>" + b
	got := av.ExtractAndNormalize(s, nil).GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	vp.Reach("extracted")
	p, found := 0, false
	for _, g := range got {
		vp.Assert(g.Offsets[0] == p && g.Offsets[1] > p && g.Offsets[1] <= len(s), "any text: the pieces cover the text in order")
		p = g.Offsets[1]
		vp.Assert(g.Value == s[g.Offsets[0]:p], "any text: the text of a piece")
		if g.Tokens != nil {
			vp.Assert(g.Value == "<é>" && g.Tokens[0].Id == 1, "any text: only the token is extracted")
			found = true
		}
	}
	vp.Assert(p == len(s) && found, "any text: the token is extracted")
}

// K_C15_unicode_words: single-word tokens next to non-ASCII letters.
func K_C15_unicode_words() {
	m := model{map[string]int{"q": 0}}
	av := tokenizer.NewAddedVocabulary()
	add(&av, m, false, []tokenizer.AddedToken{tokenizer.NewAddedToken("t", false, tokenizer.WithSingleWord(true))}, nil)
	for _, g := range av.ExtractAndNormalize("été", nil).GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
		vp.Assert(g.Tokens == nil, "single-word token inside a word with non-ASCII letters")
	}
}
