package models

import (
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

type sym struct{ c, l int }

// mergeRef repeatedly merges the leftmost pair of the lowest rank.
func mergeRef(syms []sym, merges map[bpe.Pair]bpe.PairVal) []sym {
	for {
		at, best := -1, bpe.PairVal{}
		for i := 0; i+1 < len(syms); i++ {
			if m, ok := merges[bpe.Pair{C1: syms[i].c, C2: syms[i+1].c}]; ok && (at < 0 || m.Rank < best.Rank) {
				at, best = i, m
			}
		}
		if at < 0 {
			return syms
		}
		var o []sym
		o = append(o, syms[:at]...)
		o = append(o, sym{best.NewId, syms[at].l + syms[at+1].l})
		syms = append(o, syms[at+2:]...)
	}
}

// table is a merge table of m merges over base symbols 0..base-1; merge k produces symbol base+k from two of the symbols
// before it. The ranks are a rotation of the order in which the symbols are produced, or its reverse.
func table(base, m int) map[bpe.Pair]bpe.PairVal {
	t := map[bpe.Pair]bpe.PairVal{}
	rev, rot := vp.Bool(), vp.Pick(0, m-1)
	for k := 0; k < m; k++ {
		p := bpe.Pair{C1: vp.Pick(0, base+k-1), C2: vp.Pick(0, base+k-1)}
		_, dup := t[p]
		vp.Assume(!dup)
		r := (k + rot) % m
		if rev {
			r = m - 1 - r
		}
		t[p] = bpe.PairVal{Rank: r, NewId: base + k}
	}
	return t
}

// bounds: words of 0..5 symbols over 2 base symbols with byte lengths 1..4, every table of 2 merges (thorough 6 symbols, 3 merges).
func H_C11_mergeall() {
	const base = 2
	m := vp.Pick(1, vp.Bound(2, 3))
	t := table(base, m)
	w := bpe.NewWord()
	var syms []sym
	for k := vp.Pick(0, vp.Bound(5, 6)); k > 0; k-- {
		s := sym{vp.Int(0, base-1), vp.Int(1, 4)}
		syms = append(syms, s)
		w.Add(s.c, s.l)
	}
	want := mergeRef(syms, t)
	w.MergeAll(t)
	vp.Reach("merged")
	got, offs := w.GetChars(), w.GetOffsets()
	vp.Assert(len(got) == len(want) && len(offs) == len(want), "merging: number of symbols")
	p := 0
	for i, s := range want {
		vp.Assert(got[i] == s.c, "merging: the leftmost pair of the lowest rank first")
		vp.Assert(offs[i][0] == p && offs[i][1] == p+s.l, "merging: offsets cover the word")
		p += s.l
	}
	vp.Observe("w", got, offs)
}

// bounds: words of 6..7 equal or alternating symbols (long runs), one or two merges (thorough up to 9).
func H_C11_runs() {
	t := map[bpe.Pair]bpe.PairVal{{C1: 0, C2: 0}: {Rank: vp.Pick(0, 1) * 2, NewId: 2}}
	if vp.Bool() {
		t[bpe.Pair{C1: 2, C2: 0}] = bpe.PairVal{Rank: 1, NewId: 3}
	}
	if vp.Bool() {
		t[bpe.Pair{C1: 2, C2: 2}] = bpe.PairVal{Rank: vp.Pick(0, 1) * 4, NewId: 4}
	}
	if vp.Bool() {
		t[bpe.Pair{C1: 0, C2: 2}] = bpe.PairVal{Rank: 3, NewId: 5}
	}
	w := bpe.NewWord()
	var syms []sym
	odd := vp.Pick(-1, 8)
	for k := 0; k < vp.Bound(7, 9); k++ {
		s := sym{0, 1}
		if k == odd {
			s.c = 1
		}
		syms = append(syms, s)
		w.Add(s.c, s.l)
	}
	want := mergeRef(syms, t)
	w.MergeAll(t)
	vp.Reach("merged")
	got := w.GetChars()
	vp.Assert(len(got) == len(want), "merging runs: number of symbols")
	for i, s := range want {
		vp.Assert(got[i] == s.c && w.Symbols[i].Len == s.l, "merging runs: from left to right")
	}
}

// bounds: words of 16..24 symbols that repeat 1..3 symbols, the first, middle or last of them possibly another, every table of 2 merges (thorough 3).
func H_C11_long() {
	t := table(2, vp.Bound(2, 3))
	var pat []int
	for k := vp.Pick(1, 3); k > 0; k-- {
		pat = append(pat, vp.Pick(0, 1))
	}
	n := vp.Pick(0, 1)*8 + 16
	odd := []int{-1, 0, n / 2, n - 1}[vp.Pick(0, 3)]
	w := bpe.NewWord()
	var syms []sym
	for k := 0; k < n; k++ {
		s := sym{pat[k%len(pat)], k%3 + 1}
		s.c = vp.IteInt(k == odd, 1-s.c, s.c)
		syms = append(syms, s)
		w.Add(s.c, s.l)
	}
	want := mergeRef(syms, t)
	w.MergeAll(t)
	vp.Reach("merged")
	got, offs := w.GetChars(), w.GetOffsets()
	vp.Assert(len(got) == len(want) && len(offs) == len(want), "long words: number of symbols")
	p := 0
	for i, s := range want {
		vp.Assert(got[i] == s.c && offs[i][0] == p && offs[i][1] == p+s.l, "long words: the leftmost pair of the lowest rank first")
		p += s.l
	}
}

func sp(s string) *string { return &s }

var bpeVocab = map[string]int{"[UNK]": 0, "a": 1, "b": 2, "é": 3, "中": 4, "ab": 5, "aé": 6, "aba": 7, "aa": 8, "é中": 9}
var bpeMerges = []string{"#version: 0.2", "a b", "a é", "ab a", "a a", "x y", "é 中"}

// bpeRef is the tokenization that the vocabulary and the merge list define.
func bpeRef(s string, vocab map[string]int, lines []string, prefix, suffix, unk string) (o []tokenizer.Token) {
	merges := map[bpe.Pair]bpe.PairVal{}
	n := 0
	for _, l := range lines {
		p := strings.Split(l, " ")
		a, ok := vocab[p[0]]
		b, ok2 := vocab[p[1]]
		if ok && ok2 {
			merges[bpe.Pair{C1: a, C2: b}] = bpe.PairVal{Rank: n, NewId: vocab[p[0]+strings.TrimPrefix(p[1], prefix)]}
			n++
		}
	}
	var syms []sym
	rs := []rune(s)
	for i, r := range rs {
		k := string(r)
		if i > 0 {
			k = prefix + k
		}
		if i == len(rs)-1 {
			k += suffix
		}
		id, ok := vocab[k]
		if !ok {
			id = vocab[unk]
		}
		syms = append(syms, sym{id, len(string(r))})
	}
	p := 0
	for _, m := range mergeRef(syms, merges) {
		v := ""
		for k, id := range vocab {
			if id == m.c {
				v = k
			}
		}
		o = append(o, tokenizer.Token{Id: m.c, Value: v, Offsets: []int{p, p + m.l}})
		p += m.l
	}
	return o
}

// bounds: words of 0..3 arbitrary characters of 1..3 bytes (thorough 0..4); tokenized with a cache of capacity 0, 1 or
// many, after another word of 0..2 characters, twice.
func H_C11_tokenize() {
	m, err := bpe.New(bpeVocab, bpeMerges, nil, sp("[UNK]"), nil, nil)
	vp.Assert(err == nil, "bpe: a well-formed model is accepted")
	switch vp.Pick(0, 2) {
	case 0:
		b := bpe.NewBpeBuilder()
		b.VocabAndMerges(*m.Vocab, *m.Merges)
		b.UnkToken("[UNK]")
		b.CacheCapacity(0)
		m, err = b.Build()
		vp.Assert(err == nil, "bpe: a cache of capacity 0 is accepted")
	case 1:
		m.Cache = bpe.NewCache(1)
	}
	first := over(vp.Pick(0, 2), "a", "é")
	m.Tokenize(first)
	s := text(vp.Pick(0, vp.Bound(3, 4)), 3)
	want := bpeRef(s, bpeVocab, bpeMerges, "", "", "[UNK]")
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "bpe: tokenizes every word")
	tiles(got, s, "bpe")
	sameToks(got, want, "bpe")
	again, err := m.Tokenize(s)
	vp.Assert(err == nil, "bpe again: tokenizes every word")
	sameToks(again, want, "bpe again")
	vp.Reach("tokenized")
	if m.Cache != nil {
		vp.Assert(m.Cache.GetSize() <= m.Cache.Capacity, "bpe: the cache stays within its capacity")
	}
	m.ClearCache()
	vp.Assert(m.Cache == nil || m.Cache.GetSize() == 0, "bpe: clearing empties the cache")
	again, err = m.Tokenize(s)
	vp.Assert(err == nil, "bpe after clearing the cache: tokenizes every word")
	sameToks(again, want, "bpe after clearing the cache")
	vp.Observe("t", got)
}

// bounds: words of 0..4 ASCII characters (thorough 0..5), with a continuing subword prefix or none and an end-of-word suffix or none.
func H_C11_affixes() {
	prefix, suffix := "", ""
	var pp, ps *string
	if vp.Bool() {
		prefix, pp = "##", sp("##")
	}
	if vp.Bool() {
		suffix, ps = "</w>", sp("</w>")
	}
	vocab := map[string]int{"[UNK]": 0}
	for _, t := range []string{"a", "b", prefix + "a", prefix + "b", "a" + suffix, "b" + suffix, prefix + "a" + suffix, prefix + "b" + suffix,
		"ab", prefix + "ab", "ab" + suffix, prefix + "ab" + suffix, "aab", "aab" + suffix} {
		if _, ok := vocab[t]; !ok {
			vocab[t] = len(vocab)
		}
	}
	lines := []string{"a " + prefix + "b", prefix + "a " + prefix + "b" + suffix, prefix + "a " + prefix + "b", "a " + prefix + "b" + suffix, "a " + prefix + "ab", "a " + prefix + "ab" + suffix}
	m, err := bpe.New(vocab, lines, nil, sp("[UNK]"), pp, ps)
	vp.Assert(err == nil, "bpe with affixes: a well-formed model is accepted")
	s := letters(vp.Pick(0, vp.Bound(4, 5)), 0, 127)
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "bpe with affixes: tokenizes every word")
	vp.Reach("tokenized")
	tiles(got, s, "bpe with affixes")
	sameToks(got, bpeRef(s, vocab, lines, prefix, suffix, "[UNK]"), "bpe with affixes")
	vp.Observe("t", got)
}

// bounds: words of 0..5 characters out of 2, dropouts 1/8..8/8: every token is a vocabulary entry spelled by its
// characters, and tokenization ends.
func H_C11_dropout() {
	d := float32(vp.Pick(1, 8)) / 8
	m, err := bpe.New(map[string]int{"a": 0, "b": 1, "ab": 2, "aa": 3, "aba": 4}, []string{"a b", "a a", "ab a"}, &d, nil, nil, nil)
	vp.Assert(err == nil, "bpe with dropout: a well-formed model is accepted")
	s := over(vp.Pick(0, vp.Bound(5, 7)), "a", "b")
	got, err := m.Tokenize(s)
	vp.Assert(err == nil, "bpe with dropout: tokenizes every word")
	vp.Reach("tokenized")
	tiles(got, s, "bpe with dropout")
	for _, t := range got {
		vp.Assert(t.Value == s[t.Offsets[0]:t.Offsets[1]], "bpe with dropout: a token is spelled by its characters")
		id, ok := m.TokenToId(t.Value)
		vp.Assert(ok && id == t.Id, "bpe with dropout: a token is in the vocabulary")
	}
	vp.Assert(d < 1 || len(got) == len(s), "bpe with dropout: nothing is merged at dropout 1")
}

// bounds: words of 1..5 symbols out of 3, every pair to merge.
func H_C11_pair_changes() {
	n := vp.Pick(1, vp.Bound(5, 6))
	w := bpe.NewWord()
	var before []int
	for i := 0; i < n; i++ {
		c := vp.Int(0, 2)
		before = append(before, c)
		w.Add(c, 1)
	}
	a, b := vp.Int(0, 2), vp.Int(0, 2)
	changes, err := w.Merge(a, b, 9)
	vp.Assert(err == nil, "merging a pair: succeeds")
	var want []int
	for i := 0; i < n; i++ {
		if i+1 < n && before[i] == a && before[i+1] == b {
			want = append(want, 9)
			i++
		} else {
			want = append(want, before[i])
		}
	}
	after := w.GetChars()
	vp.Assert(len(after) == len(want), "merging a pair: every occurrence, from left to right")
	count := map[bpe.Pair]int{}
	for i := range after {
		vp.Assert(after[i] == want[i], "merging a pair: resulting symbols")
		if i > 0 {
			count[bpe.Pair{C1: vp.Concrete(after[i-1]), C2: vp.Concrete(after[i])}]++
		}
	}
	for i := 1; i < n; i++ {
		count[bpe.Pair{C1: vp.Concrete(before[i-1]), C2: vp.Concrete(before[i])}]--
	}
	for _, c := range changes {
		count[bpe.Pair{C1: vp.Concrete(c.C1), C2: vp.Concrete(c.C2)}] -= c.Change
	}
	vp.Reach("merged")
	for p, k := range count {
		vp.Assert(k == 0 || p.C1 == a && p.C2 == b, "merging a pair: the reported changes are the change in pair counts")
	}
	vp.Observe("w", after)
}
