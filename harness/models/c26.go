package models

import (
	"encoding/json"
	"os"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/pretrained"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// saved saves m (over the files of another model, or not) and returns the prefix of the names of its files.
func saved(m, older tokenizer.Model) (dir, prefix string) {
	dir = vp.TempDir()
	var name []string
	if vp.Pick(0, 1) == 1 {
		name = []string{"m"}
		prefix = "m-"
	}
	if older != nil && vp.Pick(0, 1) == 1 {
		vp.Assert(older.Save(dir, name...) == nil, "save: no error")
	}
	vp.Assert(m.Save(dir, name...) == nil, "save: no error")
	return dir, dir + "/" + prefix
}

// sameVocab asserts that both models have the same tokens and ids.
func sameVocab(got, want tokenizer.Model, what string) {
	v, o := got.GetVocab(), want.GetVocab()
	vp.Assert(len(v) == len(o) && got.GetVocabSize() == want.GetVocabSize(), what+": size of the vocabulary")
	for t, id := range o {
		x, ok := v[t]
		vp.Assert(ok && x == id, what+": id of a token")
		x, ok = got.TokenToId(t)
		vp.Assert(ok && x == id, what+": id of a token")
		s, ok := got.IdToToken(id)
		vp.Assert(ok && s == t, what+": token of an id")
	}
}

// tokensOf is what m makes of s.
func tokensOf(m tokenizer.Model, s string) (toks []tokenizer.Token, failed bool) {
	failed = vp.Panics(func() {
		var err error
		if toks, err = m.Tokenize(s); err != nil {
			panic(err)
		}
	})
	return toks, failed
}

func sameTokens(got, want tokenizer.Model, s, what string) {
	x, p := tokensOf(got, s)
	y, q := tokensOf(want, s)
	vp.Assert(p == q, what+": fails on the same texts")
	if !p {
		sameToks(x, y, what)
	}
}

func sameMerges(got, want *bpe.BPE, what string) {
	a, b := *got.Merges, *want.Merges
	vp.Assert(len(a) == len(b), what+": number of merges")
	for p, v := range b {
		x, ok := a[p]
		vp.Assert(ok && x.NewId == v.NewId, what+": merges")
		for q, u := range b {
			vp.Assert((u.Rank < v.Rank) == (a[q].Rank < x.Rank), what+": order of the merges")
		}
	}
}

var affixLoad = []string{"", "##"}

func loadBPE(prefix, sub string) *bpe.BPE {
	b := bpe.NewBpeBuilder()
	b.Files(prefix+"vocab.json", prefix+"merges.txt")
	if sub != "" {
		b.ContinuingSubwordPrefix(sub)
	}
	m, err := b.Build()
	vp.Assert(err == nil, "load: no error")
	return m
}

// bounds: vocabularies of three characters out of eight (quotes, markup, marks, control and wide characters) with or without a prefix of
// continuing subwords, ids with gaps, 0..3 merges of them and of what they give with ranks with gaps in any order; saved with or without
// a name, over other files or not; a word of 3 characters.
func H_C26_bpe() {
	sub := affixLoad[vp.Pick(0, 1)]
	sets := [][]string{{"a", "\"", "é"}, {"<", "\\", "\u2028"}, {"\x00", "😀", "#"}}
	cs := sets[vp.Pick(0, 2)]
	vocab := map[string]int{}
	id := 3
	add := func(t string) int {
		if x, ok := vocab[t]; ok {
			return x
		}
		vocab[t] = id
		id += 2
		return id - 2
	}
	for _, c := range cs {
		add(c)
		if sub != "" {
			add(sub + c)
		}
	}
	merges := bpe.Merges{}
	ranks := []int{7, 0, 3}
	heads := cs[:2:2]
	for n := vp.Pick(0, vp.Bound(2, 3)); n > 0; n-- {
		a := heads[vp.Pick(0, len(heads)-1)]
		b := cs[vp.Pick(0, 1)]
		p := bpe.Pair{C1: vocab[a], C2: vocab[sub+b]}
		if _, ok := merges[p]; ok {
			continue
		}
		merges[p] = bpe.PairVal{Rank: ranks[n-1], NewId: add(a + b)}
		heads = append(heads, a+b)
	}
	builder := bpe.NewBpeBuilder()
	builder.VocabAndMerges(vocab, merges)
	if sub != "" {
		builder.ContinuingSubwordPrefix(sub)
	}
	m, err := builder.Build()
	vp.Assert(err == nil, "bpe: builds")
	older := bpe.NewBPE(map[string]int{"x": 0, "y": 1, "xy": 2, "xyx": 3, "xyxy": 4, "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz": 5},
		bpe.Merges{bpe.Pair{C1: 0, C2: 1}: {Rank: 0, NewId: 2}, bpe.Pair{C1: 2, C2: 0}: {Rank: 1, NewId: 3}, bpe.Pair{C1: 2, C2: 2}: {Rank: 2, NewId: 4}})
	_, prefix := saved(m, older)
	got := loadBPE(prefix, sub)
	sameVocab(got, m, "saved BPE")
	sameMerges(got, m, "saved BPE")
	sameTokens(got, m, cs[vp.Pick(0, 1)]+cs[vp.Pick(0, 1)]+cs[vp.Pick(0, 2)], "saved BPE")
	vp.Reach("loaded")
}

// bounds: models trained on two words of 1..3 characters over a, b (with or without a prefix of continuing subwords), counts 1..3; BPE and
// the WordPiece model made of it.
func H_C26_trained() {
	words, counts := wordList(2, 1, 3, "a", "b")
	for i := range counts {
		counts[i] = vp.Concrete(vp.IteInt(counts[i] > 3, 3, counts[i]))
	}
	c := trainCfg{size: 8, limit: -1, prefix: affixLoad[vp.Pick(0, 1)]}
	m := train(words, counts, c)
	_, prefix := saved(m, nil)
	got := loadBPE(prefix, c.prefix)
	sameVocab(got, m, "saved BPE")
	sameMerges(got, &m, "saved BPE")
	for _, w := range words {
		sameTokens(got, m, w, "saved BPE")
	}
	vp.Reach("loaded")
}

// lines are different texts of 0..2 (thorough 0..3) arbitrary bytes other than line ends.
func lines(n int) []string {
	var ts []string
	for i := 0; i < n; i++ {
		k := vp.Pick(0, vp.Bound(2, 3))
		b := make([]byte, k)
		for j := range b {
			b[j] = vp.Byte()
			vp.Assume(vp.And(b[j] != '\n', b[j] != '\r'))
		}
		for _, o := range ts {
			vp.Assume(o != string(b))
		}
		ts = append(ts, string(b))
	}
	return ts
}

func vocabOf(ts []string) map[string]int {
	v := map[string]int{}
	k := vp.Pick(0, len(ts)-1)
	for i, t := range ts {
		v[t] = (i + k) % len(ts)
	}
	return v
}

// bounds: WordPiece models of three tokens of 0..2 arbitrary bytes (thorough 0..3) other than line ends in any rotation of the ids; saved with
// or without a name, over other files or not; any word of two arbitrary bytes.
func H_C26_wordpiece() {
	vocab := vocabOf(lines(3))
	unk := ""
	for t, id := range vocab {
		if id == 1 {
			unk = t
		}
	}
	m := wordpiece.NewWordPieceBuilder().Vocab((*model.Vocab)(&vocab)).UnkToken(unk).Build()
	older := wordpiece.NewWordPieceBuilder().Vocab(&model.Vocab{"abcdef": 0, "g": 1, "h": 2, "i": 3, "j": 4}).Build()
	_, prefix := saved(m, older)
	got, err := wordpiece.NewWordPieceFromFile(prefix+"vocab.txt", unk)
	vp.Assert(err == nil, "load: no error")
	sameVocab(got, m, "saved WordPiece")
	sameTokens(got, m, vp.Str(2), "saved WordPiece")
	sameVocab(wordpiece.NewWordPieceBuilderFromFile(prefix+"vocab.txt").Build(), m, "saved WordPiece")
	vp.Reach("loaded")
}

// bounds: WordLevel models of three tokens of 0..2 arbitrary bytes (thorough 0..3) other than line ends in any rotation of the ids; saved with
// or without a name, over other files or not; any word of two arbitrary bytes.
func H_C26_wordlevel() {
	vocab := vocabOf(lines(3))
	m, err := wordlevel.New(vocab, "?")
	vp.Assert(err == nil, "wordlevel: builds")
	older, err := wordlevel.New(map[string]int{"abcdef": 0, "g": 1, "h": 2, "i": 3, "j": 4}, "g")
	vp.Assert(err == nil, "wordlevel: builds")
	_, prefix := saved(m, older)
	got, err := wordlevel.NewWorldLevelFromFile(prefix+"vocab.txt", "?")
	vp.Assert(err == nil, "load: no error")
	sameVocab(got, m, "saved WordLevel")
	sameTokens(got, m, vp.Str(2), "saved WordLevel")
	vp.Reach("loaded")
}

// bounds: Unigram models of 1..2 (thorough 1..3) tokens with scores from 0 to -3 quarters, unknown token, byte fallback and fusing of unknown text set or
// not; saved over other files or not, read as the model of a tokenizer.json; a word of 2 characters.
func H_C26_unigram() {
	var vocab []unigram.TokenScore
	for i, n := 0, vp.Pick(1, vp.Bound(2, 3)); i < n; i++ {
		t := [][]string{{"a", "\"<"}, {"é", "ab"}, {"<0xC3>"}}[i]
		vocab = append(vocab, unigram.TokenScore{Token: t[vp.Pick(0, len(t)-1)], Score: float64(-vp.Pick(0, 3)) / 4})
	}
	b := unigram.NewUnigramBuilder().Vocab(vocab)
	if u := vp.Pick(-1, len(vocab)-1); u >= 0 {
		b = b.UnkID(u)
	}
	b = b.BytesFallback(vp.Pick(0, 1) == 1).FuseUnk(vp.Pick(0, 1) == 1)
	m, err := b.Build()
	vp.Assert(err == nil, "unigram: builds")
	older, err := unigram.NewUnigramBuilder().Vocab([]unigram.TokenScore{{Token: "abcdefghijkl", Score: -1.25}, {Token: "x", Score: -1}, {Token: "y", Score: -1}, {Token: "z", Score: -1}}).Build()
	vp.Assert(err == nil, "unigram: builds")
	dir, prefix := saved(m, older)
	if prefix == dir+"/" {
		prefix += "tokenizer-"
	}
	data, err := os.ReadFile(prefix + "vocab.json")
	vp.Assert(err == nil, "load: no error")
	conf := map[string]interface{}{}
	vp.Assert(json.Unmarshal(data, &conf) == nil, "saved Unigram: valid JSON")
	got, err := pretrained.CreateModel(&tokenizer.Config{Model: conf})
	vp.Assert(err == nil, "saved Unigram: is the model of a tokenizer.json")
	sameVocab(got, m, "saved Unigram")
	sameTokens(got, m, over(2, "a", "é", "z"), "saved Unigram")
	vp.Reach("loaded")
}

// bounds: every model; the directory is missing or one of the files is on a device without space.
func H_C26_errors() {
	var m tokenizer.Model
	var files []string
	switch vp.Pick(0, 3) {
	case 0:
		m, files = bpe.NewBPE(map[string]int{"a": 0, "b": 1, "ab": 2}, bpe.Merges{bpe.Pair{C1: 0, C2: 1}: {Rank: 0, NewId: 2}}), []string{"vocab.json", "merges.txt"}
	case 1:
		m, files = wordpiece.NewWordPieceBuilder().Vocab(&model.Vocab{"a": 0}).Build(), []string{"vocab.txt"}
	case 2:
		w, err := wordlevel.New(map[string]int{"a": 0}, "a")
		vp.Assert(err == nil, "wordlevel: builds")
		m, files = w, []string{"vocab.txt"}
	case 3:
		u, err := unigram.NewUnigramBuilder().Vocab([]unigram.TokenScore{{Token: "a", Score: -1}}).Build()
		vp.Assert(err == nil, "unigram: builds")
		m, files = u, []string{"tokenizer-vocab.json"}
	}
	dir := vp.TempDir()
	if vp.Pick(0, 1) == 1 {
		vp.Assert(os.Symlink("/dev/full", dir+"/"+files[vp.Pick(0, len(files)-1)]) == nil, "link")
	} else {
		vp.Assert(os.WriteFile(dir+"/f", nil, 0o600) == nil, "file")
		dir += "/f"
	}
	vp.Assert(m.Save(dir) != nil, "save: an error if the files cannot be written")
	vp.Reach("error")
}

// bounds: files that are missing, or merges with a line of one or three parts, or of parts whose merge has no id: an error.
func H_C26_badfiles() {
	dir := vp.TempDir()
	vocab, merges := dir+"/vocab.json", dir+"/merges.txt"
	write := func(f, s string) { vp.Assert(os.WriteFile(f, []byte(s), 0o600) == nil, "write") }
	line := ""
	k := vp.Pick(0, 6)
	if k != 0 {
		write(vocab, []string{`{"a":0,"b":1,"ab":2}`, `{"a":0,`}[vp.Pick(0, 1)])
	}
	if k != 1 {
		line = []string{"", "", "a b\n", "#version: 0.2\na b", "a\n", "a b\nb a\n", "a b c\n"}[k]
		write(merges, line)
	}
	m, err := bpe.NewBpeFromFiles(vocab, merges)
	data, err2 := os.ReadFile(vocab)
	bad := k == 0 || k == 1 || k >= 4 || err2 != nil || data[len(data)-1] != '}'
	vp.Assert((err != nil) == bad, "load: an error exactly if a file is missing or malformed")
	if !bad {
		v, ok := (*m.Merges)[bpe.Pair{C1: 0, C2: 1}]
		vp.Assert(ok && v.NewId == 2 && len(*m.Merges) == 1, "load: the merges")
	}
	_, err = wordpiece.NewWordPieceFromFile(dir+"/none", "?")
	vp.Assert(err != nil, "load: an error if the file is missing")
	_, err = wordlevel.NewWorldLevelFromFile(dir+"/none", "?")
	vp.Assert(err != nil, "load: an error if the file is missing")
	vp.Reach("checked")
}
