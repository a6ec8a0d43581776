package models

import (
	"math"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// trainCfg is a configuration of the trainer.
type trainCfg struct {
	size, min      int
	special        []tokenizer.AddedToken
	limit          int // -1: none
	initial        []string
	prefix, suffix string
	free           bool // every schedule
	order          int  // which single schedule
}

func train(words []string, counts []int, c trainCfg) bpe.BPE {
	b := bpe.NewBPETrainerBuilder()
	b.MinFrequency(c.min)
	b.VocabSize(c.size)
	b.ShowProgress(false)
	b.SpecialTokens(c.special)
	if c.limit >= 0 {
		b.LimitAlphabet(c.limit)
	}
	if c.initial != nil {
		set := bpe.CharSet{}
		for _, s := range c.initial {
			set[s] = struct{}{}
		}
		b.InitialAlphabet(set)
	}
	if c.prefix != "" {
		b.ContinuingSubwordPrefix(c.prefix)
	}
	if c.suffix != "" {
		b.EndOfWordSuffix(c.suffix)
	}
	wc := map[string]int{}
	for i, w := range words {
		wc[w] = counts[i]
	}
	if !c.free {
		vp.Sched(max(1, c.order))
	}
	m, sp := b.Build().Train(wc)
	vp.Sched(0)
	vp.Assert(len(sp) == len(c.special), "training: returns the special tokens")
	for i := range sp {
		vp.Assert(sp[i].Content == c.special[i].Content, "training: returns the special tokens")
	}
	return m.(bpe.BPE)
}

// inOrder is the merges by rank.
func inOrder(m bpe.BPE) ([]bpe.Pair, []int) {
	n := len(*m.Merges)
	ps, ids := make([]bpe.Pair, n), make([]int, n)
	seen := make([]bool, n)
	for p, v := range *m.Merges {
		vp.Assert(v.Rank >= 0 && v.Rank < n && !seen[v.Rank], "training: ranks are 0 to the number of merges")
		seen[v.Rank] = true
		ps[v.Rank], ids[v.Rank] = p, v.NewId
	}
	return ps, ids
}

// trained asserts that the model is what training on the words gives. kept is the characters of the alphabet.
func trained(m bpe.BPE, words []string, counts []int, c trainCfg, kept func(string) bool) bool {
	vocab := m.GetVocab()
	toks := make([]string, len(vocab))
	for t, id := range vocab {
		vp.Assert(id >= 0 && id < len(vocab) && toks[id] == "", "training: ids are 0 to the size of the vocabulary")
		toks[id] = t
	}
	vp.Assert(m.GetVocabSize() == len(vocab), "training: size of the vocabulary")
	for id, t := range toks {
		back, ok := m.IdToToken(id)
		vp.Assert(ok && back == t, "training: ids have their tokens")
	}
	// special tokens first, then the alphabet in order
	next := 0
	for i, s := range c.special {
		dup := false
		for _, o := range c.special[:i] {
			dup = dup || o.Content == s.Content
		}
		if !dup {
			vp.Assert(next < len(toks) && toks[next] == s.Content, "training: special tokens come first")
			next++
		}
	}
	isSpecial := func(s string) bool {
		for _, o := range c.special {
			if o.Content == s {
				return true
			}
		}
		return false
	}
	chars := map[string]bool{}
	for _, w := range words {
		for _, r := range w {
			chars[string(r)] = true
		}
	}
	for _, s := range c.initial {
		chars[s] = true
	}
	var alphabet []string
	for ch := range chars {
		if kept(ch) {
			k := len(alphabet)
			alphabet = append(alphabet, ch)
			for ; k > 0 && alphabet[k-1] > ch; k-- {
				alphabet[k], alphabet[k-1] = alphabet[k-1], alphabet[k]
			}
		} else if !isSpecial(ch) {
			_, ok := vocab[ch]
			vp.Assert(!ok, "training: characters that are not kept are not in the vocabulary")
		}
	}
	for _, ch := range alphabet {
		if !isSpecial(ch) {
			vp.Assert(next < len(toks) && toks[next] == ch, "training: the alphabet comes next, in order")
			next++
		}
	}
	// the pieces of the words
	segs := make([][]int, len(words))
	affixed := map[string]bool{}
	for i, w := range words {
		rs := []rune(w)
		for k, r := range rs {
			if !kept(string(r)) {
				continue
			}
			s := string(r)
			if k > 0 {
				s = c.prefix + s
			}
			if k == len(rs)-1 {
				s += c.suffix
			}
			id, ok := vocab[s]
			vp.Assert(ok, "training: the pieces of the words are in the vocabulary")
			if s != string(r) && !affixed[s] {
				affixed[s] = true
				next++
			}
			segs[i] = append(segs[i], id)
		}
	}
	ps, ids := inOrder(m)
	size := next
	done := map[string]bool{}
	for _, t := range toks[:min(next, len(toks))] {
		done[t] = true
	}
	count := func() (map[bpe.Pair]int, int) {
		n := map[bpe.Pair]int{}
		most := 0
		for i, s := range segs {
			for k := 0; k+1 < len(s); k++ {
				p := bpe.Pair{C1: s[k], C2: s[k+1]}
				n[p] += counts[i]
			}
		}
		for _, k := range n {
			most = vp.IteInt(k > most, k, most)
		}
		return n, most
	}
	low := max(c.min, 1)
	for k, p := range ps {
		vp.Assert(size < c.size, "training: stops when the vocabulary is large enough")
		n, most := count()
		vp.Assert(vp.And(n[p] == most, n[p] >= low), "training: every merge is one of the most frequent pairs")
		text := toks[p.C1] + strings.TrimPrefix(toks[p.C2], c.prefix)
		vp.Assert(toks[ids[k]] == text, "training: the token of a merge is its parts")
		if !done[text] {
			done[text] = true
			size++
		}
		for i, s := range segs {
			var o []int
			for j := 0; j < len(s); j++ {
				if j+1 < len(s) && s[j] == p.C1 && s[j+1] == p.C2 {
					o = append(o, ids[k])
					j++
				} else {
					o = append(o, s[j])
				}
			}
			segs[i] = o
		}
	}
	vp.Assert(size == len(vocab), "training: the vocabulary is special tokens, alphabet and merged tokens")
	if size < c.size {
		_, most := count()
		vp.Assert(most < low, "training: goes on while a pair is frequent enough")
	}
	for i, w := range words {
		whole := true
		for _, r := range w {
			whole = whole && kept(string(r))
		}
		if whole && w != "" {
			got, err := m.Tokenize(w)
			vp.Assert(err == nil, "training: the model tokenizes the words")
			vp.Assert(len(got) == len(segs[i]), "training: the model segments the words as training did")
			for k, t := range got {
				vp.Assert(t.Id == segs[i][k], "training: the model segments the words as training did")
			}
		}
	}
	return size >= c.size
}

func all(string) bool { return true }

// wordList is n different words of the given lengths over the alphabet.
func wordList(n, min, max int, alphabet ...string) (words []string, counts []int) {
	for i := 0; i < n; i++ {
		w := over(vp.Pick(min, max), alphabet...)
		for _, o := range words {
			vp.Assume(o < w)
		}
		words = append(words, w)
		counts = append(counts, vp.Int(1, 9))
	}
	return words, counts
}

// sameModel asserts that training is deterministic.
func sameModel(a, b bpe.BPE) {
	va, vb := a.GetVocab(), b.GetVocab()
	vp.Assert(len(va) == len(vb) && len(*a.Merges) == len(*b.Merges), "training again: same size")
	for t, id := range va {
		o, ok := vb[t]
		vp.Assert(ok && o == id, "training again: same vocabulary")
	}
	for p, v := range *a.Merges {
		o, ok := (*b.Merges)[p]
		vp.Assert(ok && o == v, "training again: same merges")
	}
}

// bounds: two different words of 1..4 characters (thorough three of 1..3) over a, b, every count 1..9, every vocabulary size from
// 2 to 6, every minimum frequency 0..3.
func H_C23_merges() {
	words, counts := wordList(2, 1, vp.Bound(4, 5), "a", "b")
	c := trainCfg{size: vp.Int(2, 6), min: vp.Int(0, 3), limit: -1}
	m := train(words, counts, c)
	if trained(m, words, counts, c, all) {
		vp.Reach("large enough")
	} else {
		vp.Reach("no more pairs")
	}
}

// bounds: two or three different words of 1..3 characters over a, b, c with counts 1..2, trained twice under all orders of map
// iteration (thorough; quick: both directions).
func H_C23_deterministic() {
	var words []string
	var counts []int
	for _, w := range []string{"ab", "abc", "bc", "ca", "cb"} {
		if vp.Pick(0, 1) == 1 {
			words = append(words, w)
			counts = append(counts, vp.Int(1, 2))
		}
	}
	vp.Assume(len(words) == 2 || len(words) == 3)
	c := trainCfg{size: 6, limit: -1}
	a := train(words, counts, c)
	vp.MapOrder(vp.Bound(2, 3))
	b := train(words, counts, c)
	vp.MapOrder(0)
	sameModel(a, b)
	trained(a, words, counts, c, all)
}

// bounds: a word of 1..2 characters over a, é and a word of 2..3 over é, c with counts up to a billion; initial alphabet, limits of the alphabet 0..4,
// special tokens (one of which is a character of the alphabet, one given twice): no merges.
func H_C23_alphabet() {
	words := []string{over(vp.Pick(1, 2), "a", "é"), "c" + over(vp.Pick(1, 2), "é", "c")}
	counts := []int{vp.Int(1, 1_000_000_000), vp.Int(1, 1_000_000_000)}
	c := trainCfg{size: 0, limit: vp.Pick(-1, 4)}
	if vp.Pick(0, 1) == 1 {
		c.initial = []string{"x", "é"}[:vp.Pick(1, 2)]
	}
	if vp.Pick(0, 1) == 1 {
		for _, s := range []string{"[UNK]", "c", "[UNK]"} {
			c.special = append(c.special, tokenizer.NewAddedToken(s, true))
		}
	}
	m := train(words, counts, c)
	vocab := m.GetVocab()
	freq := map[string]int{}
	for i, w := range words {
		for _, r := range w {
			freq[string(r)] += counts[i]
		}
	}
	for _, s := range c.initial {
		freq[s] = math.MaxUint32
	}
	special := func(s string) bool { return c.special != nil && (s == "c" || s == "[UNK]") }
	n := 0
	for x := range freq {
		if _, ok := vocab[x]; ok {
			n++
		}
	}
	if c.limit >= 0 && c.special == nil {
		vp.Assert(n == min(c.limit, len(freq)), "training: the alphabet is limited")
	} else if c.limit < 0 {
		vp.Assert(n == len(freq), "training: the alphabet is complete")
	}
	for x, fx := range freq {
		for y, fy := range freq {
			_, okx := vocab[x]
			_, oky := vocab[y]
			if okx && !oky && !special(x) {
				vp.Assert(fx >= fy, "training: the most frequent characters are kept")
			}
		}
	}
	if c.special == nil {
		trained(m, words, counts, c, func(s string) bool { _, ok := vocab[s]; return ok })
	}
	vp.Reach("alphabet")
}

// bounds: one or two words of 1..3 characters over a, b, counts 1..9, continuing-subword prefix, end-of-word suffix, both or neither,
// vocabulary sizes 2 to 12; the WordPiece trainer gives the same vocabulary.
func H_C23_affixes() {
	words, counts := wordList(vp.Pick(1, 2), 1, vp.Bound(3, 3), "a", "b")
	c := trainCfg{size: vp.Pick(2, vp.Bound(9, 12)), limit: -1}
	if vp.Pick(0, 1) == 1 {
		c.prefix = "##"
	}
	if vp.Pick(0, 1) == 1 {
		c.suffix = "</w>"
	}
	m := train(words, counts, c)
	trained(m, words, counts, c, all)
	if c.prefix != "" {
		wc := map[string]int{}
		for i, w := range words {
			wc[w] = counts[i]
		}
		b := wordpiece.NewWordPieceTrainerBuilder().VocabSize(c.size).ShowProgress(false)
		if c.suffix != "" {
			b = b.EndOfWordSuffix(c.suffix)
		}
		vp.Sched(1)
		wp := b.Build().Train(wc)
		vp.Sched(0)
		got := wp.GetVocab()
		vp.Assert(len(got) == len(m.GetVocab()), "training WordPiece: the vocabulary of BPE")
		for t, id := range m.GetVocab() {
			o, ok := wp.TokenToId(t)
			vp.Assert(ok && o == id && got[t] == id, "training WordPiece: the vocabulary of BPE")
			back, ok := wp.IdToToken(id)
			vp.Assert(ok && back == t, "training WordPiece: the tokens of BPE")
		}
		if c.suffix == "" {
			for _, w := range words {
				toks, err := wp.Tokenize(w)
				vp.Assert(err == nil, "training WordPiece: the model tokenizes the words")
				tiles(toks, w, "training WordPiece")
			}
		}
		vp.Reach("wordpiece")
	}
}

// bounds: the words ab, ab ab (counts 1..3), every schedule of the goroutines that count the pairs.
func H_C23_schedules() {
	words := []string{"ab", "abab"}
	counts := []int{vp.Int(1, 3), vp.Int(1, 3)}
	c := trainCfg{size: 4, limit: -1, free: true}
	m := train(words, counts, c)
	trained(m, words, counts, c, all)
	vp.Reach("trained")
}

// bounds: 10009 words (so that four workers and a rest count the pairs), all but five without pairs; the five, with counts 1..2, are
// in the shares of the first, second and last worker and in the rest; two schedules.
func H_C23_many() {
	vp.Steps(400_000_000)
	var words []string
	var counts []int
	for i := 0; i < 10004; i++ {
		words = append(words, string(rune(0x4e00+i)))
		counts = append(counts, 1)
	}
	for _, w := range []string{"ab", "䀀ac", "埇bc", "龫ab", "龬bcd"} {
		words = append(words, w)
		counts = append(counts, vp.Int(1, 2))
	}
	c := trainCfg{size: 10004 + 8, limit: -1, order: vp.Pick(1, 2)}
	m := train(words, counts, c)
	seen := map[string]int{}
	for i, w := range words[10004:] {
		rs := []rune(w)
		for k := 0; k+1 < len(rs); k++ {
			seen[string(rs[k:k+2])] += counts[10004+i]
		}
	}
	ps, _ := inOrder(m)
	vp.Assert(len(ps) > 0, "training on many words: merges")
	for _, p := range ps[:1] {
		a, _ := m.IdToToken(p.C1)
		b, _ := m.IdToToken(p.C2)
		for _, k := range seen {
			vp.Assert(seen[a+b] >= k, "training on many words: the most frequent pair is merged first")
		}
	}
	vp.Reach("many")
}

// bounds: special tokens that are also merged tokens or characters; three words over a, b, c with counts 1..9.
func H_C23_special() {
	var c trainCfg
	c.limit = -1
	c.size = vp.Pick(3, 8)
	for _, s := range [][]string{{"[UNK]"}, {"ab", "[UNK]"}, {"b", "b"}, {"bc", "abc"}}[vp.Pick(0, 3)] {
		c.special = append(c.special, tokenizer.NewAddedToken(s, true))
	}
	words := []string{"ab", "abc", "bc"}
	counts := []int{vp.Int(1, 9), vp.Int(1, 9), vp.Int(1, 9)}
	m := train(words, counts, c)
	trained(m, words, counts, c, all)
}

// bounds: 0..4 words out of three, counted on top of counts that are there.
func H_C23_count() {
	words := map[string]int{}
	want := map[string]int{}
	if vp.Bool() {
		k := vp.Int(1, 1000)
		words["a"], want["a"] = k, k
	}
	var toks []string
	for n := vp.Pick(0, 4); n > 0; n-- {
		t := []string{"a", "b", ""}[vp.Pick(0, 2)]
		toks = append(toks, t)
		want[t]++
	}
	bpe.NewBpeTrainer(0, 10).ProcessTokens(words, toks)
	vp.Assert(len(words) == len(want), "counting: every word")
	for w, k := range want {
		vp.Assert(words[w] == k, "counting: every occurrence")
	}
	vp.Reach("counted")
}

// bounds: five words of four to eight characters over five letters that share many parts, counts 1..3 (thorough 1..9), vocabulary sizes 6 and 7 (thorough 6 to 10) and
// one that is large enough for everything.
func H_C23_wide() {
	words := [][]string{
		{"xabc", "yabc", "zabc", "abcd", "abce"},
		{"abab", "ababab", "babab", "bab", "abba"},
		{"aaaa", "aaaaaaaa", "aaaaa", "aaab", "baaa"},
		{"abcabc", "bcabca", "cabcab", "abcab", "bcbc"},
	}[vp.Pick(0, 3)]
	var counts []int
	for range words {
		counts = append(counts, vp.Int(1, vp.Bound(3, 9)))
	}
	c := trainCfg{size: 30, limit: -1}
	if k := vp.Pick(0, vp.Bound(2, 5)); k > 0 {
		c.size = 5 + k
	}
	m := train(words, counts, c)
	trained(m, words, counts, c, all)
	vp.Reach("trained")
}

// bounds: one or two words of 1..3 characters over '#', 'a', with a prefix or suffix made of the same characters, counts 1..9.
func H_C23_affix_chars() {
	words, counts := wordList(vp.Pick(1, 2), 1, vp.Bound(3, 4), "#", "a")
	c := trainCfg{size: 12, limit: -1}
	switch vp.Pick(0, 3) {
	case 0:
		c.prefix = "#"
	case 1:
		c.prefix = "##"
	case 2:
		c.suffix = "#"
	case 3:
		c.prefix, c.suffix = "#", "a"
	}
	m := train(words, counts, c)
	trained(m, words, counts, c, all)
	vp.Reach("trained")
}

// bounds: the words ab, aba, abc, b (counts 1..3); a minimum frequency 0..3, a limit of the alphabet 0..3 or none, an initial alphabet or none, special tokens or none, prefix "##"
// or "_", a suffix or none, set at the builder of the WordPiece trainer: the vocabulary of the BPE trainer with these options.
func H_C23_wordpiece() {
	words := []string{"ab", "aba", "abc", "b"}
	var counts []int
	c := trainCfg{size: vp.Pick(4, vp.Bound(10, 12)), limit: -1, min: vp.Pick(0, vp.Bound(2, 3)), prefix: "##"}
	b := wordpiece.WordPieceTrainer{}.Builder().ShowProgress(false).VocabSize(c.size).MinFrequency(c.min)
	switch vp.Pick(0, 6) {
	case 1:
		c.limit = vp.Pick(0, 3)
		b = b.LimitAlphabet(c.limit)
	case 2:
		c.initial = []string{"z", "b"}
		b = b.InitialAlphabet(bpe.CharSet{"z": struct{}{}, "b": struct{}{}})
	case 3:
		c.special = []tokenizer.AddedToken{tokenizer.NewAddedToken("[UNK]", true), tokenizer.NewAddedToken("ab", true)}
		b = b.SpecialTokens(c.special)
	case 4:
		c.prefix = "_"
		b = b.ContinuingSubwordPrefix("_")
	case 5:
		c.suffix = "</w>"
		b = b.EndOfWordSuffix("</w>")
	}
	t := b.Build()
	wc := map[string]int{}
	for _, w := range words {
		n := vp.Int(1, vp.Bound(2, 3))
		counts = append(counts, n)
		wc[w] = n
	}
	m := train(words, counts, c)
	vp.Sched(1)
	wp := t.Train(wc).(wordpiece.WordPiece)
	vp.Sched(0)
	got := wp.GetVocab()
	vp.Assert(len(got) == len(m.GetVocab()), "training WordPiece: the vocabulary of BPE")
	for t, id := range m.GetVocab() {
		o, ok := got[t]
		vp.Assert(ok && o == id, "training WordPiece: the vocabulary of BPE")
	}
	// every piece of a word but the first has the prefix
	if c.suffix == "" && c.limit < 0 && c.special == nil {
		for _, w := range words {
			toks, err := wp.Tokenize(w)
			vp.Assert(err == nil, "training WordPiece: the model tokenizes the words")
			for i, tk := range toks {
				vp.Assert(strings.HasPrefix(tk.Value, c.prefix) == (i > 0), "training WordPiece: pieces inside a word have the prefix")
			}
			tiles(toks, w, "training WordPiece")
		}
	}
	vp.Reach("trained")
}

// bounds: two lists of 0..2 (thorough 3) arbitrary tokens of a letter a..d, counted one after the other by the trainer of BPE or WordPiece.
func H_C23_counts() {
	var list []string
	wc := map[string]int{}
	var t interface {
		ProcessTokens(words map[string]int, tokens []string)
	} = bpe.NewBpeTrainer(0, 10)
	if vp.Pick(0, 1) == 1 {
		t = wordpiece.NewWordPieceTrainerBuilder().Build()
	}
	for k := 0; k < 2; k++ {
		var part []string
		for n := vp.Pick(0, vp.Bound(2, 3)); n > 0; n-- {
			part = append(part, string([]byte{vp.ByteIn('a', 'd')}))
		}
		t.ProcessTokens(wc, part)
		list = append(list, part...)
	}
	total := 0
	for w, c := range wc {
		n := 0
		for _, o := range list {
			n += vp.IteInt(o == w, 1, 0)
		}
		vp.Assert(c == n && n > 0, "counting tokens: how often")
		total += c
	}
	vp.Assert(total == len(list), "counting tokens: every one")
	vp.Reach("counted")
}
